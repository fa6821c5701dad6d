#!/usr/bin/env python3
"""Makes and confirms a planted bug: seed.py ID < json {property, edits:[[file, old, new],...], demo, needs, what, libs?}; or seed.py --verify ID...
The patch is applied to the repository only for the duration of the confirmation; SEED_ROOT=/tmp/sr works on /tmp/sr/repo with
/tmp/sr/build.sh and /tmp/sr/test.sh (copies of the ones of /opt/vp with the path changed) instead of /repo."""
import json, os, subprocess, sys
S = os.environ.get("SEED_ROOT"); R = S + "/repo" if S else "/repo"; VP = S or "/opt/vp"
os.environ["B"] = R + "/_build"; os.environ["VERIF_REPO"] = R
V = "/verif/seeded"
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def clean():
    sh("git -C %s checkout -- . && bash %s/build.sh" % (R, VP))
def confirm(i, check=True):
    d = os.path.join(V, i)
    meta = json.load(open(d + "/meta.json"))
    clean()
    r = sh(["bash", d + "/demo.sh"], cwd=R); ok = r.returncode == 0
    print(i, "demo unchanged:", r.returncode, "" if ok else r.stdout[-800:])
    a = sh("git -C %s apply %s/patch.diff" % (R, d))
    try:
        if a.returncode: print("APPLY FAILED", a.stdout); return False
        b = sh("bash %s/build.sh" % VP)
        if b.returncode: print("BUILD FAILED", b.stdout[-1500:]); return False
        t = sh("bash %s/test.sh /tmp/w/seedtest.json" % VP); tj = json.load(open("/tmp/w/seedtest.json"))
        r = sh(["bash", d + "/demo.sh"], cwd=R, timeout=300)
        print(i, "tests failed:", tj["failed"], "demo patched:", r.returncode)
        ok = ok and not tj["failed"] and len(tj["passed"]) == 4 and r.returncode != 0
        if check:
            c = sh(["python3", "check.py", meta["property"], "quick"], cwd="/verif")
            print(i, meta["property"], "check exit:", c.returncode, "CAUGHT" if c.returncode == 1 else "MISSED")
            print("   ", "\n    ".join(c.stdout.strip().splitlines()[:2])[:500])
    finally:
        clean()
    print(i, "COUNTS" if ok else "DOES NOT COUNT")
    return ok
if sys.argv[1] == "--verify":
    for i in sys.argv[2:] or sorted(os.listdir(V)): confirm(i)
else:
    i = sys.argv[1]; j = json.load(sys.stdin); d = os.path.join(V, i); os.makedirs(d, exist_ok=True)
    clean()
    for f, old, new in j["edits"]:
        p = R + "/" + f; s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    open(d + "/patch.diff", "w").write(sh("git -C %s diff" % R).stdout)
    clean()
    open(d + "/demo.c", "w").write(j["demo"])
    src = "src/release/cee.c" if j.get("lib", "cee") == "cee" else "src/release/cee.c $B/src/cee-json/release/cee-json.c"
    if j.get("lib") == "sql": src += " $B/src/sqlite3/cee-sqlite3.c $B/src/sqlite3/join.c"
    if j.get("lib") == "dbm":
        src += " $B/src/sqlite3/cee-sqlite3.c $B/src/sqlite3/cee_dbm.c -I$here"
        open(d + "/cee-utils.h", "w").write("""/* stands in for the external cee-utils library */
#include <stdio.h>
#include <stdlib.h>
static char *cee_load_whole_file(const char *f, size_t *n) { FILE *p = fopen(f, "r"); char *b = calloc(1, 65536); *n = fread(b, 1, 65535, p); fclose(p); return b; }
""")
    if j.get("lib") == "strview": src += " $B/src/strview.c"
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# exit 0: the property holds for the scenario in demo.c; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
B=${B:-/repo/_build}
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -w -g -std=gnu99 -fsanitize=address -I$B/src/cee-json -I$B/src/sqlite3 -I$B/src "$here/demo.c" $B/%s -lm %s -o "$T/demo" || exit 2
cd "$T" && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
''' % (src, "-lsqlite3" if j.get("lib") in ("sql", "dbm") else ""))
    json.dump({"property": j["property"], "needs": j["needs"], "what_it_breaks": j["what"]}, open(d + "/meta.json", "w"), indent=1)
    sys.exit(0 if confirm(i) else 1)

#!/usr/bin/env python3
"""Carries an uncommitted change of /repo's sources into the committed amalgamations (release/): the lines that differ
between the amalgamation generated from HEAD and the one generated from the working tree are changed in release/ too."""
import difflib, os, shutil, subprocess, sys, tempfile
FILES = ["release/cee.c", "release/cee.h", "cee-json/release/cee-json.c", "cee-json/release/cee-json.h"]
env = dict(os.environ, CC="gcc", LC_ALL="C.UTF-8")
def gen(cmd):
    d = tempfile.mkdtemp(prefix="syncrel-")
    subprocess.run(cmd.replace("@", d), shell=True, check=True)
    os.makedirs(d + "/cee-utils", exist_ok=True)
    r = subprocess.run(["make", "-C", d, "-j8", "release"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: sys.exit(r.stdout[-3000:])
    out = {f: open(d + "/" + f).read().split("\n") for f in FILES}
    shutil.rmtree(d)
    return out
A = gen("git -C /repo archive HEAD | tar -x -C @")
B = gen("rsync -a --exclude=/.git --exclude=/_build --exclude=obj /repo/ @/")
for f in FILES:
    if A[f] == B[f]: continue
    R = open("/repo/" + f).read().split("\n")
    ai = [i for i, l in enumerate(A[f]) if l.strip()]
    a = [A[f][i].strip() for i in ai]
    b = [l for l in B[f] if l.strip()]
    ri = [i for i, l in enumerate(R) if l.strip()]
    r = [R[i].strip() for i in ri]
    # map index in a -> index in R
    m = {}
    for x, y, n in difflib.SequenceMatcher(None, a, r, autojunk=False).get_matching_blocks():
        for k in range(n): m[x + k] = ri[y + k]
    edits = []
    for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, a, [l.strip() for l in b], autojunk=False).get_opcodes():
        if tag == "equal": continue
        if any(i not in m for i in range(i1, i2)) or i1 - 1 not in m: sys.exit("cannot map %s %r" % (f, a[i1:i2]))
        dels = [m[i] for i in range(i1, i2)]
        if dels and dels[-1] - dels[0] > (i2 - i1) * 4 + 8: sys.exit("scattered mapping in %s" % f)
        edits.append((dels, m[i1 - 1], b[j1:j2]))
    for dels, prev, new in reversed(edits):
        at = dels[0] if dels else prev + 1
        for i in reversed(dels): del R[i]
        R[at:at] = new
    open("/repo/" + f, "w").write("\n".join(R))
    # the result must equal the generated one up to blank lines (and lines that already differed)
    r2 = [l.strip() for l in R if l.strip()]; b2 = [l.strip() for l in b]
    d0 = sum(1 for l in difflib.ndiff(a, r) if l[0] in "+-"); d1 = sum(1 for l in difflib.ndiff(b2, r2) if l[0] in "+-")
    if d0 != d1: sys.exit("release %s does not follow the generated amalgamation (%d/%d)" % (f, d0, d1))
subprocess.run(["git", "-C", "/repo", "diff", "--stat"])

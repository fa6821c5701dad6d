"""Builds the library (both amalgamations) and the drivers, from /repo's current working tree, into a cache."""
import hashlib, os, subprocess, fcntl, shutil, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
CFLAGS = ["-g", "-O1", "-w", "-fno-omit-frame-pointer", "-fsanitize=address"]
VARIANTS = ("gen", "rel")

class BuildError(Exception):
    pass

def _sources():
    out = []
    for d, ds, fs in os.walk(REPO):
        rel = os.path.relpath(d, REPO)
        ds[:] = [x for x in ds if x not in (".git", "_build")]
        for f in fs:
            if f.endswith((".c", ".h", ".mk")) or f in ("Makefile",):
                out.append(os.path.join(d, f))
    return sorted(out)

def tree_hash():
    h = hashlib.sha256()
    for f in _sources():
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        h.update(open(f, "rb").read())
    hd = os.path.join(VERIF, "harness")
    for d, ds, fs in sorted(os.walk(hd)):
        for f in sorted(fs):
            h.update(f.encode() + b"\0"); h.update(open(os.path.join(d, f), "rb").read())
    h.update(open(__file__, "rb").read())
    return h.hexdigest()[:20]

def _run(cmd, cwd=None, env=None):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout

def _compile_all(root):
    """root/S: regenerated tree; objects and drivers in root/<variant>/"""
    env = {k: v for k, v in os.environ.items() if k not in ("MAKEFLAGS", "MFLAGS", "CFLAGS", "LDFLAGS", "LCOV")}
    env["CC"] = "gcc"; env["LC_ALL"] = "C.UTF-8"
    S = os.path.join(root, "S")
    os.makedirs(S)
    _run(["rsync", "-a", "--exclude=/.git", "--exclude=/_build", "--exclude=obj", "--exclude=*.out", "--exclude=/cee-utils",
          "--exclude=/cee-one.c", "--exclude=/cee-json/cee-json-one.c", "--exclude=/tmp.c", "--exclude=/cee-json/tmp.c",
          "--exclude=/release", "--exclude=/cee-json/release", REPO + "/", S + "/"])
    os.makedirs(os.path.join(S, "cee-utils"), exist_ok=True)
    _run(["make", "-C", S, "-j8", "release"], env=env)
    R = os.path.join(root, "R")           # snapshot of the committed amalgamation
    os.makedirs(R)
    _run(["rsync", "-a", "--exclude=/.git", "--exclude=/_build", REPO + "/", R + "/"])
    H = os.path.join(VERIF, "harness")
    jobs = []
    for v, d in (("gen", S), ("rel", R)):
        o = os.path.join(root, v); os.makedirs(o)
        inc = ["-I" + d + "/release", "-I" + d]
        jinc = ["-I" + d + "/cee-json", "-I" + d]
        jobs.append((o + "/cee.o", ["gcc", "-std=c99"] + CFLAGS + inc + ["-c", d + "/release/cee.c", "-o", o + "/cee.o"]))
        jobs.append((o + "/cee-json.o", ["gcc"] + CFLAGS + jinc + ["-c", d + "/cee-json/release/cee-json.c", "-o", o + "/cee-json.o"]))
        for f in ("cee-sqlite3", "join"):
            jobs.append((o + "/%s.o" % f, ["gcc", "-std=gnu99"] + CFLAGS + jinc + ["-I" + d + "/sqlite3", "-c", d + "/sqlite3/%s.c" % f, "-o", o + "/%s.o" % f]))
        jobs.append((o + "/cee_dbm.o", ["gcc", "-std=gnu99"] + CFLAGS + jinc + ["-I" + d + "/sqlite3", "-I" + H + "/stub", "-c", d + "/sqlite3/cee_dbm.c", "-o", o + "/cee_dbm.o"]))
        jobs.append((o + "/core.o", ["gcc", "-std=gnu99"] + CFLAGS + ["-c", H + "/core.c", "-o", o + "/core.o"]))
        for f in sorted(os.listdir(H)):
            if f.startswith("drv_") and f.endswith(".c"):
                n = f[:-2]
                jobs.append((o + "/%s.o" % n, ["gcc", "-std=gnu99"] + CFLAGS + jinc + ["-I" + d + "/sqlite3", "-I" + H, "-I" + H + "/stub", "-c", H + "/" + f, "-o", o + "/%s.o" % n]))
    procs = [(c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for _, c in jobs]
    for c, p in procs:
        out, _ = p.communicate()
        if p.returncode:
            raise BuildError("%s\n%s" % (" ".join(c), out[-4000:]))
    procs = []
    for v in VARIANTS:
        o = os.path.join(root, v)
        for f in sorted(os.listdir(H)):
            if f.startswith("drv_") and f.endswith(".c"):
                n = f[:-2]
                objs = [o + "/%s.o" % n, o + "/core.o", o + "/cee-json.o", o + "/cee.o"]
                libs = []
                if n in ("drv_sql", "drv_dbm"):
                    objs += [o + "/cee-sqlite3.o", o + "/join.o"]; libs = ["-lsqlite3"]
                if n == "drv_dbm": objs.append(o + "/cee_dbm.o")
                c = ["gcc"] + CFLAGS + objs + ["-o", o + "/" + n, "-lm"] + libs
                procs.append((c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for c, p in procs:
        out, _ = p.communicate()
        if p.returncode:
            raise BuildError("%s\n%s" % (" ".join(c), out[-4000:]))
    shutil.rmtree(S); shutil.rmtree(R)

def build():
    """Returns {variant: directory with the driver binaries}."""
    os.makedirs(CACHE, exist_ok=True)
    h = tree_hash()
    final = os.path.join(CACHE, "b-" + h)
    lock = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if not os.path.exists(final + "/ok"):
            old = sorted((d for d in os.listdir(CACHE) if d.startswith("b-")), key=lambda d: os.path.getmtime(os.path.join(CACHE, d)))
            for d in old[:-3]:
                shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
            tmp = tempfile.mkdtemp(prefix="w-", dir=CACHE)
            try:
                _compile_all(tmp)
                shutil.rmtree(final, ignore_errors=True)
                open(tmp + "/ok", "w").close()
                os.rename(tmp, final)
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN); lock.close()
    return {v: os.path.join(final, v) for v in VARIANTS}

if __name__ == "__main__":
    print(build())

"""Conformance engine: replay of specification behaviours on the code, validation of recorded traces by TLC,
verdicts, known findings, evidence."""
import concurrent.futures as cf
import json, os, random, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import vbuild, tlc

HEX = "0123456789abcdef"
_SAFE = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.-+*/=<>!?&^~|()[]{}:;,'@$#\"")

def enc(x):
    """one script token for an int, a string (latin-1 view of bytes), or a list of byte values"""
    if isinstance(x, bool): return "1" if x else "0"
    if isinstance(x, int): return str(x)
    if isinstance(x, (list, tuple)):
        if all(type(b) is int for b in x): x = "".join(chr(b) for b in x)
        else: x = json.dumps(x, separators=(",", ":"))      # a nested value, read by the driver
    if x == "": return "%"
    return "".join(c if c in _SAFE else "%%%02x" % ord(c) for c in x)

def opline(a):
    return " ".join(enc(x) for x in a)

class Case:
    __slots__ = ("ops", "exp", "quiet", "tag")
    # ops: list of op token lists; exp: list of expected outputs (None: not compared); quiet: list of bool
    def __init__(self, ops, exp, quiet=None, tag=None):
        self.ops, self.exp, self.tag = ops, exp, tag
        self.quiet = quiet or [e is None for e in exp]

class Outcome:
    __slots__ = ("outs", "leak", "crash")
    def __init__(self): self.outs, self.leak, self.crash = [], None, None

def _run_chunk(binary, cases, first, secs, workdir, max_crashes=6, run_as=None):
    """Runs cases on the driver; a crash or hang is recorded on its case and the rest continues."""
    res = {}
    i = 0
    crashes = 0
    while i < len(cases):
        script = os.path.join(workdir, "s%d" % first); out = script + ".out"; err = script + ".err"
        with open(script, "w") as f:
            for k in range(i, len(cases)):
                c = cases[k]
                f.write("case %d\n" % k)
                for o, q in zip(c.ops, c.quiet):
                    f.write(("-" if q else "") + opline(o) + "\n")
                f.write("end\n")
        exe, _, kind = binary.partition(":")
        env = {"PATH": os.environ["PATH"], "LC_ALL": "C", "TMPDIR": workdir, "DRV_KIND": kind}
        wd = os.path.join(workdir, "wd%d" % first); os.makedirs(wd, exist_ok=True)
        with open(err, "wb") as ef:
            p = subprocess.Popen([exe, script, out, str(secs)], stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, env=env, cwd=wd)
            try: rc = p.wait(timeout=600)
            except subprocess.TimeoutExpired:
                p.kill(); p.wait(); rc = -9
        cur = None; nxt = i
        with open(out, encoding="latin-1") as f:
            for line in f:
                if line[0] == "@":
                    if line.startswith("@c "):
                        cur = Outcome(); k = int(line[3:]); res[k] = cur; nxt = k
                    elif line.startswith("@e "):
                        cur.leak = int(line[3:]); nxt = k + 1; cur = None
                    elif line.startswith("@hang"):
                        if cur: cur.crash = "hang"
                elif cur is not None:
                    cur.outs.append(line[:-1] if line.endswith("\n") else line)
        if rc == 0 and nxt >= len(cases):
            break
        if cur is None:   # died between cases: an error of the harness unless the code corrupted the process
            if nxt < len(cases) and nxt not in res: res[nxt] = Outcome()
            cur = res.get(nxt) or res[len(cases) - 1]
        tail = open(err, "rb").read()[-200000:].decode("latin-1")
        if rc in (93, 94, 95, 96): raise RuntimeError("driver error %d: %s" % (rc, tail[-500:]))
        if cur.crash is None:
            m = re.search(r"ERROR: AddressSanitizer:? ([^\n]*)", tail)
            frames = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+)", tail[tail.find("ERROR: AddressSanitizer"):] if m else "")[:6]
            cur.crash = "crash: %s [%s]" % (m.group(1)[:100] if m else "exit %s" % rc, " < ".join(frames))
        cur.leak = None
        crashes += 1
        i = nxt + 1
        if crashes >= max_crashes: break
    return res

def run_cases(binary, cases, jobs=8, secs=20, workdir=None, max_crashes=6):
    """-> list of Outcome (None when not run because too many crashes came before)"""
    own = workdir is None
    if own: workdir = tempfile.mkdtemp(prefix="drv-")
    try:
        n = len(cases); res = [None] * n
        jobs = max(1, min(jobs, (n + 49) // 50))
        step = (n + jobs - 1) // jobs if n else 1
        chunks = [(k, cases[k:k + step]) for k in range(0, n, step)]
        with cf.ThreadPoolExecutor(jobs) as ex:
            fs = [(k, ex.submit(_run_chunk, binary, ch, k, secs, workdir, max_crashes)) for k, ch in chunks]
            for k, f in fs:
                for j, o in f.result().items(): res[k + j] = o
        return res
    finally:
        if own: shutil.rmtree(workdir, ignore_errors=True)

# ------------------------------------------------------------------------------------------------
def graph_cases(records, compare_prefix=False):
    """records: {s,a,e,t} transitions of the state graph -> one case per transition (shortest path to its source first).
    Records without s: a is one op (case of a single op); with 'ops': a list of [a,e] pairs (a whole behaviour)."""
    cases = []; trans = {}; order = []
    first = None
    for r in records:
        if "ops" in r:
            cases.append(Case([x["a"] for x in r["ops"]], [x["e"] for x in r["ops"]], [False] * len(r["ops"]))); continue
        if "s" not in r:
            cases.append(Case([r["a"]], [r["e"]])); continue
        s = json.dumps(r["s"], sort_keys=True); t = json.dumps(r["t"], sort_keys=True)
        if first is None: first = s
        trans.setdefault(s, []).append((r["a"], r["e"], t))
    if first is not None:
        path = {first: None}; q = [first]; qi = 0
        while qi < len(q):
            s = q[qi]; qi += 1
            for a, e, t in trans.get(s, ()):
                if t not in path: path[t] = (s, a); q.append(t)
        cache = {}
        def pre(s):
            st = []
            while path[s] is not None:
                s2, a = path[s]; st.append(a); s = s2
            return st[::-1]
        for s in q:
            if s not in trans: continue
            pf = pre(s)
            for a, e, t in trans[s]:
                cases.append(Case(pf + [a], [None] * len(pf) + [e]))
        lost = set(trans) - set(path)
        if lost: raise tlc.ModelError("unreachable sources in emitted graph: %d" % len(lost))
    return cases

class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop; self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"): self.tier = sys.argv[2]
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.quick = self.tier != "thorough"
        self.rng = random.Random(self.seed * 1000003 + sum(map(ord, prop)))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.ops = 0
        self.samples = []; self.assume = []; self.viol = []; self.extra = {}
        self.models = []
        self.known = load_known(prop); self.known_hit = {}
        self._bins = None

    # ---- building blocks
    def bins(self, driver):
        if self._bins is None: self._bins = vbuild.build()
        name, _, kind = driver.partition(":")      # "drv_cont:map": binary drv_cont told to play the map part
        return [(v, os.path.join(d, name) + ":" + kind) for v, d in self._bins.items()]

    def model(self, module, constants=None, **kw):
        r = tlc.run(module, constants, **kw)
        self.states += r.distinct; self.transitions += r.generated
        self.models.append({"module": module, "constants": {k: str(v) for k, v in (constants or {}).items()}, "mode": "simulate" if kw.get("simulate") else "exhaustive",
                            "distinct": r.distinct, "generated": r.generated, "depth": r.depth, "wall_s": round(r.wall, 2)})
        return r

    def replay(self, driver, cases, variants=("gen", "rel"), label="", norm=None, leak=False, secs=20, jobs=8, post=None, accept=None):
        """spec -> code: run the cases, compare every expected output."""
        if not cases: raise tlc.ModelError("no cases for %s" % label)
        for v, b in self.bins(driver):
            if v not in variants: continue
            outs = run_cases(b, cases, jobs=jobs, secs=secs)
            bad = []
            for k, (c, o) in enumerate(zip(cases, outs)):
                d = self.judge(c, o, norm, leak, post, accept)
                if d is not None: bad.append((k, d))
                self.traces += o is not None
                self.ops += len(c.ops)
            for k, d in bad[:40]:
                # repeat alone before reporting
                o2 = run_cases(b, [cases[k]], jobs=1, secs=secs)[0]
                d2 = self.judge(cases[k], o2, norm, leak, post, accept)
                if d2 is None: d2 = d + " (only in a batch; repeated below)" ; 
                self.violation("%s/%s: %s" % (label or driver, v, d2), driver, v, cases[k])
        if cases and len(self.samples) < 6:
            c = cases[self.rng.randrange(len(cases))]
            self.samples.append({"driver": driver, "ops": [opline(o) for o in c.ops][-12:], "expected_last": c.exp[-1]})

    def judge(self, c, o, norm, leak, post=None, accept=None):
        if o is None: return None
        if o.crash: return "%s after op %s" % (o.crash, opline(c.ops[min(len(c.ops) - 1, self._opidx(c, o))])[:200])
        vis = [i for i, q in enumerate(c.quiet) if not q]
        if len(o.outs) != len(vis): return "driver printed %d results for %d ops" % (len(o.outs), len(vis))
        for i, line in zip(vis, o.outs):
            e = c.exp[i]
            if e is None: continue
            try: got = json.loads(line)
            except ValueError: return "unreadable result %r" % line[:200]
            if norm: e2, got = norm(e), norm(got)
            else: e2 = e
            if not (accept(e2, got) if accept else got == e2):
                return "op %s: specification says %s, code says %s" % (opline(c.ops[i])[:300], json.dumps(e2)[:400], json.dumps(got)[:400])
        if post:
            d = post(c, o)
            if d: return d
        if leak and o.leak: return "%d bytes still allocated after the state was deleted" % o.leak
        return None

    def _opidx(self, c, o):
        vis = [i for i, q in enumerate(c.quiet) if not q]
        return vis[len(o.outs)] if len(o.outs) < len(vis) else len(c.ops) - 1

    def record(self, driver, histories, variants=("gen", "rel"), leak=False, secs=20, label=""):
        """runs histories (lists of ops), returns {variant: [(history, [decoded outputs])]}; crashes are violations"""
        res = {}
        for v, b in self.bins(driver):
            if v not in variants: continue
            cases = [Case(h, [None] * len(h), [False] * len(h)) for h in histories]
            outs = run_cases(b, cases, secs=secs)
            rr = []
            for c, o in zip(cases, outs):
                if o is None: continue
                if o.crash or len(o.outs) != len(c.ops):
                    self.violation("%s/%s: %s after op %s" % (label or driver, v, o.crash or "missing output", opline(c.ops[min(len(o.outs), len(c.ops) - 1)])[:200]), driver, v, c)
                    continue
                if leak and o.leak:
                    self.violation("%s/%s: %d bytes still allocated after the state was deleted" % (label or driver, v, o.leak), driver, v, c)
                try: rr.append((c, [json.loads(x) for x in o.outs]))
                except ValueError: self.violation("%s/%s: unreadable output" % (label or driver, v), driver, v, c)
            res[v] = rr
        return res

    def validate(self, module, driver, histories, constants=None, variants=("gen", "rel"), leak=False, secs=20, label="", norm=None, parts=4, timeout=600, env=None):
        """code -> spec: record the histories on the real code and let TLC accept or reject every trace."""
        rec = self.record(driver, histories, variants, leak, secs, label)
        jobs = []
        work = tempfile.mkdtemp(prefix="trace-")
        try:
            for v, rr in rec.items():
                if not rr: continue
                n = max(1, min(parts, len(rr)))
                for k in range(n):
                    sub = rr[k::n]
                    path = os.path.join(work, "%s-%d.ndjson" % (v, k)); idx = []
                    with open(path, "w") as f:
                        for c, outs in sub:
                            f.write('{"a":["reset"],"e":{"r":0,"o":0}}\n'); idx.append((c, -1))
                            for j, (op, e) in enumerate(zip(c.ops, outs)):
                                f.write(json.dumps({"a": list(op), "e": norm(e) if norm else e}, separators=(",", ":")) + "\n"); idx.append((c, j))
                    jobs.append((v, path, idx))
            def one(job):
                v, path, idx = job
                e = dict(env or {}); e["TRACE"] = path
                return job, tlc.run(module, constants, spec="TraceSpec", env=e, timeout=timeout, allow_fail=True, xmx="2g")
            with cf.ThreadPoolExecutor(4) as ex:
                for (v, path, idx), r in ex.map(one, jobs):
                    self.states += r.distinct; self.transitions += r.generated
                    mm = [x for x in r.records if isinstance(x, dict) and "mismatch" in x]
                    at = re.findall(r"^/\\ traceline = (\d+)", r.txt, re.M)
                    if r.rc != 0 and not mm and at and "Attempted to" in r.txt and int(at[-1]) <= len(idx):
                        # the recorded result is not even of the kind the specification talks about
                        c, j = idx[int(at[-1]) - 1]
                        mm = [{"mismatch": int(at[-1]), "exp": "a result of another kind", "got": None}]
                    if r.rc != 0 and not mm:
                        raise tlc.ModelError("trace validation %s failed\n%s" % (module, r.txt[-3000:]))
                    if mm:
                        l = mm[0]["mismatch"]; c, j = idx[l - 1]
                        self.violation("%s/%s: trace rejected by %s at op %d %s: specification says %s, code says %s" %
                                       (label or driver, v, module, j, opline(c.ops[j])[:200], json.dumps(mm[0].get("exp"))[:400], json.dumps(mm[0].get("got"))[:400]),
                                       driver, v, Case(c.ops[:j + 1], [None] * j + [mm[0].get("exp")], [False] * (j + 1)))
                    elif r.depth - 1 != len(idx):
                        raise tlc.ModelError("trace validation %s consumed %d of %d events without a mismatch report\n%s" % (module, r.depth - 1, len(idx), r.txt[-3000:]))
                    self.traces += sum(1 for c, j in idx if j == -1); self.ops += len(idx)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        if histories and len(self.samples) < 6:
            h = histories[self.rng.randrange(len(histories))]
            self.samples.append({"driver": driver, "trace_head": [opline(o) for o in h[:12]], "length": len(h)})

    # ---- verdicts
    def violation(self, msg, driver, variant, case):
        script = [opline(o) for o in case.ops]
        for kf in self.known:
            if re.search(kf["match"], msg) and (not kf.get("script") or re.search(kf["script"], "\n".join(script))):
                self.known_hit[kf["what"]] = self.known_hit.get(kf["what"], 0) + 1
                return
        d = os.path.join(VERIF, "replay"); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.prop, len(self.viol)))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "what": msg, "driver": driver, "variant": variant, "script": script, "expected_last": case.exp[-1] if case.exp else None}, f, indent=1)
        self.viol.append((msg, path))

    def known_present(self, what):
        self.known_hit[what] = self.known_hit.get(what, 0) + 1

    def finish(self):
        ev = {"property": self.prop, "tier": "quick" if self.quick else "thorough", "seed": self.seed, "level": self.level,
              "coverage": {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                           "operations_executed": self.ops, "samples": self.samples, "models": self.models, **self.extra},
              "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f: json.dump(ev, f, indent=1, ensure_ascii=False)
        for k in self.known:
            if k["what"] in self.known_hit:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        for m, p in self.viol[:10]:
            print("  " + m)
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        print("%s %s: %d states, %d transitions, %d traces, %d ops, %.1fs, %d violations" %
              (self.prop, ev["tier"], self.states, self.transitions, self.traces, self.ops, ev["wall_s"], len(self.viol)))
        sys.stdout.flush()
        return 1 if self.viol else 0

def load_known(prop):
    """known_findings.txt: 'known: property=<id> match=/<regex>/ script=/<regex>/ <what>' ; 'fixed: ...' lines suppress nothing"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) match=/(.*?)/ (?:script=/(.*?)/ )?(.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append({"match": m.group(2), "script": m.group(3), "what": m.group(4)})
    return out

def main(registry):
    prop = sys.argv[1]
    ck = Check(prop)
    try:
        registry[prop](ck)
    except vbuild.BuildError as e:
        print("BUILD ERROR: %s" % e); return 2
    except tlc.ModelError as e:
        print("MODEL ERROR: %s" % e); return 3
    except Exception:
        traceback.print_exc(); return 4
    return ck.finish()

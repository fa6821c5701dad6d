"""Running TLC: model checking with emission of transitions, simulation, and trace validation."""
import json, os, re, subprocess, tempfile, threading, time, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class ModelError(Exception):
    """TLC itself failed, or an invariant of the specification is violated: an error of the check, not of the code."""

class Result:
    pass

def _cfg(constants, spec="Spec", invariants=(), properties=(), constraint=None, action_constraint=None, view=None, post=None, extra=""):
    s = ["SPECIFICATION %s" % spec, "CHECK_DEADLOCK FALSE"]
    for k, v in constants.items():
        s.append("CONSTANT %s <- const_%s" % (k, k))
    for i in invariants: s.append("INVARIANT %s" % i)
    for p in properties: s.append("PROPERTY %s" % p)
    if constraint: s.append("CONSTRAINT %s" % constraint)
    if action_constraint: s.append("ACTION_CONSTRAINT %s" % action_constraint)
    if view: s.append("VIEW %s" % view)
    if post: s.append("POSTCONDITION %s" % post)
    return "\n".join(s) + "\n" + extra

# Trace validation: every recorded step must be a step of the specification with the recorded result.
TRACE_TEMPLATE = """---- MODULE MC ----
EXTENDS %(m)s, IOUtils
VARIABLE traceline
TheTrace == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == Init /\\ traceline = 1
TraceNext == /\\ traceline <= Len(TheTrace) /\\ traceline' = traceline + 1
             /\\ LET ev == TheTrace[traceline] IN
                IF ev.a[1] = "reset" THEN Reset
                ELSE %(do)s /\\ IF %(accept)s THEN TRUE
                     ELSE PrintT(ToJson([mismatch |-> traceline, exp |-> last'.e, got |-> ev.e])) /\\ FALSE
TraceSpec == TraceInit /\\ [][TraceNext]_<<vars, traceline>>
"""
PLAIN_TEMPLATE = """---- MODULE MC ----
EXTENDS %(m)s
"""

def _run(module, constants=None, *, spec="Spec", invariants=(), properties=(), constraint=None, action_constraint=None, view=None,
        post=None, env=None, workers=1, simulate=None, depth=None, seed=None, timeout=600, xmx="3g", on_record=None, coverage=False, allow_fail=False):
    work = tempfile.mkdtemp(prefix="tlc-")
    try:
        path = os.path.join(work, "MC.tla")
        mtext = open(os.path.join(SPEC, module + ".tla")).read()
        accept = "Accept(last'.e, ev.e)" if "\nAccept(" in mtext else "last'.e = ev.e"
        do = "DoFor(ev.a, ev.e)" if "\nDoFor(" in mtext else "Do(ev.a)"      # DoFor: where the specification leaves a choice, the one observed, if it is allowed
        text = (TRACE_TEMPLATE if spec == "TraceSpec" else PLAIN_TEMPLATE) % {"m": module, "accept": accept, "do": do}
        for k, v in (constants or {}).items(): text += "const_%s == %s\n" % (k, v)
        open(path, "w").write(text + "====\n")
        cfg = os.path.join(work, "m.cfg")
        open(cfg, "w").write(_cfg(constants or {}, spec, invariants, properties, constraint, action_constraint, view, post))
        cmd = ["java", "-Xmx" + xmx, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4",
               "-Djava.io.tmpdir=" + work, "-DTLA-Library=" + SPEC, "-cp", CP, "tlc2.TLC", "-config", cfg, "-metadir", os.path.join(work, "meta"),
               "-workers", str(workers), "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 100)]
        if seed is not None:
            cmd += ["-seed", str(seed)] + (["-fp", "7"] if not simulate else [])
        if coverage:
            cmd += ["-coverage", "1"]
        cmd += [path]
        e = dict(os.environ); e.pop("JAVA_TOOL_OPTIONS", None)
        for k, v in (env or {}).items(): e[k] = str(v)
        t0 = time.time()
        p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", bufsize=1 << 20)
        timer = threading.Timer(timeout, p.kill); timer.start()
        r = Result(); r.records = []; r.text = []
        pend = []
        try:
            for line in p.stdout:
                if line.startswith('"') :
                    line = line.rstrip("\n")
                    try:
                        rec = json.loads(json.loads(line))
                    except ValueError:
                        r.text.append(line + "\n"); continue
                    if on_record: on_record(rec)
                    else: r.records.append(rec)
                else:
                    r.text.append(line)
        finally:
            p.wait(); timer.cancel()
        r.rc = p.returncode; r.wall = time.time() - t0
        if r.rc < 0 and r.wall < timeout - 5: raise Killed("TLC on %s was ended from outside" % module)
        txt = "".join(r.text); r.txt = txt
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", txt)
        r.generated = int(m[-1][0].replace(",", "")) if m else 0
        r.distinct = int(m[-1][1].replace(",", "")) if m else 0
        m = re.search(r"depth of the complete state graph search is (\d+)", txt)
        r.depth = int(m.group(1)) if m else 0
        if simulate:
            m = re.findall(r"The number of states generated: ([\d,]+)", txt) or re.findall(r"Progress: ([\d,]+) states checked", txt)
            if m: r.generated = r.distinct = int(m[-1].replace(",", ""))
        if r.rc != 0 and not allow_fail:
            raise ModelError("TLC on %s: exit %s after %.1fs\n%s" % (module, r.rc, r.wall, (txt[txt.find("Error:"):][:2500] + "\n...\n" if "Error:" in txt else "") + txt[-6000:]))
        return r
    finally:
        shutil.rmtree(work, ignore_errors=True)

class Killed(ModelError): pass
def run(*a, **kw):
    """once more if something else ended the process (memory ran out, say)"""
    try: return _run(*a, **kw)
    except Killed: time.sleep(5); return _run(*a, **kw)

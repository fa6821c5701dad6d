"""Ownership, deletion, garbage collection: Heap.tla."""
import re
import concurrent.futures as cf
import tlc
from engine import Case, graph_cases

BASE = {"NOBJ": 3, "SLOTS": 2, "KINDS": "{}", "POLS": "{0}", "NCLS": 2, "OPS": "{}", "SIM": "FALSE", "DEPTH": 0}
INV = dict(invariants=["RcExact", "NeverDangling"], properties=["OwnedSurvive", "GcExact"])
def S(xs): return "{" + ",".join('"%s"' % x for x in xs.split()) + "}"

def accept(e, g):
    """-1 in the place of a reference count: not specified"""
    if e["r"] != g["r"] or len(e["o"]) != len(g["o"]): return False
    for x, y in zip(e["o"], g["o"]):
        if len(x) != len(y) or x[1:] != y[1:]: return False
        if x and x[0] != -1 and x[0] != y[0]: return False
    return True

def graph(ck, label="", **c):
    recs = []
    ck.model("Heap", dict(BASE, **c), view="view", action_constraint="EmitGraph", on_record=recs.append, workers=1, **INV)
    seen = {r["a"][0] for r in recs}      # nothing asked for is missing from the graph
    for k in re.findall(r'"(\w+)"', c.get("KINDS", "")):
        if k not in seen: raise tlc.ModelError("Heap graph without %s: %s" % (k, c))
    for g in re.findall(r'"(\w+)"', c.get("OPS", "")):
        if not seen & {"merge": {"lmerge", "mmerge"}, "clone": {"sclone", "mclone"}}.get(g, {g}): raise tlc.ModelError("Heap graph without %s: %s" % (g, c))
    ck.replay("drv_heap", graph_cases(recs), label="Heap graph", leak=True, accept=accept)
    return len(recs)

def sim(ck, num, depth, procs=6, label="Heap simulation", **c):
    """random long behaviours of the specification (TLC simulation, several processes with different seeds)"""
    recs = []
    def one(k):
        ck.model("Heap", dict(BASE, **dict(dict(NCLS=4), **dict(c, SIM="TRUE", DEPTH=depth))), action_constraint="EmitSim", on_record=recs.append, simulate=num // procs, depth=depth,
                 seed=ck.seed * 100 + k, workers=1, invariants=["NeverDangling"])
    with cf.ThreadPoolExecutor(procs) as ex: list(ex.map(one, range(procs)))
    ck.replay("drv_heap", graph_cases(recs), label=label, leak=True, accept=accept)
    return len(recs)

ALL = S("leaf key plain list stack set map dict tuple triple quad ntup tag env clo")
EVERY = S("del hold root ctx gc merge clone")
ASSUME = ["programs that would leave a pointer to a freed object inside a live one, free twice or decide on an unspecified count are not generated (Heap.tla, Legal)",
          "memory is observed through AddressSanitizer and an allocation ledger around the real allocator"]

def H01(ck):
    """Reference counts decide."""
    ck.assume = ASSUME
    q = ck.quick
    graph(ck, KINDS=S("leaf list"), OPS=S("del hold"), SLOTS=1)
    graph(ck, KINDS=S("leaf list"), OPS=S("del"))
    graph(ck, KINDS=S("leaf stack"), OPS=S("del"), SLOTS=1)
    graph(ck, KINDS=S("leaf set"), OPS=S("del clone"), SLOTS=1)
    graph(ck, KINDS=S("key map"), OPS=S("del clone"), SLOTS=1)
    graph(ck, KINDS=S("leaf tuple tag"), OPS=S("del hold"), SLOTS=1)
    graph(ck, KINDS=S("env clo map"), OPS=S("del hold"), SLOTS=1)
    graph(ck, KINDS=S("leaf list"), OPS=S("del holdn"), NOBJ=2)             # more owners than 16 bits count
    sim(ck, 240 if q else 6000, 40, KINDS=S("leaf key list stack set map dict tuple triple ntup tag env clo"), OPS=S("del hold merge clone"), NOBJ=12, SLOTS=3)
    sim(ck, 240 if q else 6000, 40, KINDS=S("leaf list stack set tuple"), OPS=S("del hold merge"), NOBJ=9, SLOTS=3)
    sim(ck, 240 if q else 6000, 40, KINDS=S("leaf key map list dict"), OPS=S("del hold merge clone"), NOBJ=14, SLOTS=6)
    sim(ck, 240 if q else 6000, 50, KINDS=S("leaf key map"), OPS=S("hold merge"), NOBJ=12, SLOTS=6)
    if not q:
        graph(ck, KINDS=S("leaf list"), OPS=S("del hold"))
        graph(ck, KINDS=S("leaf stack"), OPS=S("del hold"))
        graph(ck, KINDS=S("leaf set"), OPS=S("del hold"))
        graph(ck, KINDS=S("leaf key map"), OPS=S("del hold"), SLOTS=1)
        graph(ck, KINDS=S("leaf key map"), OPS=S("del"), SLOTS=2)
        graph(ck, KINDS=S("leaf key dict"), OPS=S("del hold"), SLOTS=1)

def H02(ck):
    """Delete and no-op policies."""
    ck.assume = ASSUME
    q = ck.quick
    graph(ck, KINDS=S("leaf plain list"), OPS=S("del"), POLS="{1,2}", SLOTS=1)
    graph(ck, KINDS=S("leaf stack"), OPS=S("del"), POLS="{1,2}", SLOTS=1)
    graph(ck, KINDS=S("leaf set"), OPS=S("del clone"), POLS="{1,2}", SLOTS=1)
    graph(ck, KINDS=S("leaf key map"), OPS=S("del clone"), POLS="{1}", SLOTS=1)
    graph(ck, KINDS=S("leaf key map"), OPS=S("del clone"), POLS="{2}", SLOTS=1)
    graph(ck, KINDS=S("leaf key dict"), OPS=S("del"), POLS="{1,2}", SLOTS=1)
    graph(ck, KINDS=S("leaf tuple tag"), OPS=S("del hold"), POLS="{0,1,2}", SLOTS=1)
    graph(ck, KINDS=S("leaf tag triple quad ntup"), OPS=S("del hold"), POLS="{0,1,2}", SLOTS=1, NOBJ=2)
    graph(ck, KINDS=S("leaf tag triple"), OPS=S("del"), POLS="{0,1}", SLOTS=1)
    graph(ck, KINDS=S("env map leaf"), OPS=S("del"), POLS="{1,2}", SLOTS=1)
    sim(ck, 240 if q else 6000, 40, KINDS=ALL, OPS=S("del hold merge clone"), POLS="{0,1,2}", NOBJ=12, SLOTS=3)
    sim(ck, 240 if q else 6000, 40, KINDS=S("leaf list stack set tuple plain"), OPS=S("del merge clone"), POLS="{1,2}", NOBJ=9, SLOTS=3)
    sim(ck, 240 if q else 6000, 40, KINDS=S("leaf key map list dict"), OPS=S("del merge clone"), POLS="{1,2}", NOBJ=14, SLOTS=6)
    if not q:
        graph(ck, KINDS=S("leaf list"), OPS=S("del hold"), POLS="{0,1,2}", SLOTS=1)
        graph(ck, KINDS=S("leaf set"), OPS=S("del"), POLS="{0,1,2}", SLOTS=1)
        graph(ck, KINDS=S("leaf key map"), OPS=S("del"), POLS="{0,1,2}", SLOTS=1)
        graph(ck, KINDS=S("leaf key dict"), OPS=S("del hold"), POLS="{0,1,2}", SLOTS=1)
        graph(ck, KINDS=S("leaf tuple tag plain"), OPS=S("del hold"), POLS="{0,1,2}", SLOTS=1, NOBJ=3)

def H03(ck):
    """Deleting a state frees all of it once and nothing else."""
    ck.assume = ASSUME + ["each replayed history ends with the deletion of its state next to a second, untouched state"]
    q = ck.quick
    graph(ck, KINDS=S("leaf plain list"), POLS="{0,1,2}", SLOTS=1)
    graph(ck, KINDS=S("leaf list"), POLS="{0}", OPS=S("del"))
    graph(ck, KINDS=S("leaf key plain map"), POLS="{0}", SLOTS=1)
    graph(ck, KINDS=S("leaf plain set stack"), POLS="{1,2}", SLOTS=1)
    graph(ck, KINDS=S("leaf key plain dict"), POLS="{0,2}", SLOTS=1)
    graph(ck, KINDS=S("leaf plain tuple triple tag ntup"), POLS="{0,1,2}", SLOTS=1, NOBJ=2)
    graph(ck, KINDS=S("env clo map leaf"), OPS=S("root"), SLOTS=1)
    sim(ck, 300 if q else 6000, 30, KINDS=ALL, OPS=S("root ctx clone"), POLS="{0,1,2}", NOBJ=16, SLOTS=4)
    sim(ck, 300 if q else 6000, 40, KINDS=ALL, OPS=EVERY, POLS="{0,1,2}", NOBJ=12, SLOTS=3)
    sim(ck, 240 if q else 4000, 40, KINDS=S("list map set stack dict leaf key"), OPS=S("gc clone root"), POLS="{0,2}", NOBJ=12, SLOTS=6)

def gc_families(ck, pols):
    q = ck.quick
    graph(ck, KINDS=S("leaf tuple"), OPS=S("root gc"), NOBJ=3 if q else 4, POLS=pols)
    graph(ck, KINDS=S("leaf list"), OPS=S("root gc"), SLOTS=1, POLS=pols if not q else "{0}")
    graph(ck, KINDS=S("leaf set"), OPS=S("ctx gc"), SLOTS=1)
    graph(ck, KINDS=S("leaf stack"), OPS=S("root gc"), SLOTS=1)
    graph(ck, KINDS=S("key map"), OPS=S("root gc"), SLOTS=1)
    graph(ck, KINDS=S("key leaf dict"), OPS=S("root gc"), SLOTS=1)
    graph(ck, KINDS=S("leaf tag ntup triple"), OPS=S("root gc"), NOBJ=2)
    graph(ck, KINDS=S("env clo map"), OPS=S("gc root ctx"), SLOTS=1)
    sim(ck, 300 if q else 6000, 40, KINDS=ALL, OPS=EVERY, POLS="{0,1,2}", NOBJ=12, SLOTS=3)
    sim(ck, 240 if q else 6000, 40, KINDS=S("leaf key list map tuple env clo"), OPS=S("root gc ctx"), POLS="{0}", NOBJ=10, SLOTS=3)
    if not q:
        graph(ck, KINDS=S("leaf list"), OPS=S("root gc"), SLOTS=2)
        graph(ck, KINDS=S("env clo map key"), OPS=S("gc root del"), SLOTS=1)
        graph(ck, KINDS=S("leaf list tag"), OPS=S("gc root"), SLOTS=1)

def G01(ck):
    """Collection never frees the reachable."""
    ck.assume = ASSUME
    gc_families(ck, "{0,2}")
    sim(ck, 240 if ck.quick else 6000, 40, KINDS=S("leaf list tag ntup quad stack"), OPS=S("root gc ctx hold del"), POLS="{0,2}", NOBJ=10, SLOTS=3)

def G02(ck):
    """Collection frees all the unreachable, cycles included, every time."""
    ck.assume = ASSUME
    gc_families(ck, "{0,1}")
    # cycles: containers only, many collections
    sim(ck, 240 if ck.quick else 6000, 40, KINDS=S("list set map key"), OPS=S("root gc"), POLS="{0,2}", NOBJ=8, SLOTS=3)

CHECKS = {"H01": H01, "H02": H02, "H03": H03, "G01": G01, "G02": G02}

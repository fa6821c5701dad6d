"""Containers: lists, maps, sets, search trees, stacks, dicts."""
from engine import graph_cases

def emit(ck, module, constants, **kw):
    recs = []
    ck.model(module, constants, view=kw.pop("view", "view"), action_constraint="EmitGraph", on_record=recs.append, **kw)
    return graph_cases(recs)

def list_history(rng, n, pol, maxlen):
    cap = rng.choice([0, 0, 1, 2, 3, 5, 8, 16])
    h = [["mk", pol, cap]]; size = [0, 0]
    grow = rng.random()
    for _ in range(n):
        i = rng.randrange(2); x = rng.random()
        if size[i] >= maxlen or (size[i] and x < 0.45 * (1 - grow * 0.7)):
            k = rng.choice([0, size[i] - 1, rng.randrange(size[i] + 1), size[i], size[i] + rng.randrange(3)])
            h.append(["rem", i, k]); size[i] -= k < size[i]
        elif x < 0.72: h.append(["app", i, rng.randrange(20)]); size[i] += 1
        elif x < 0.92: h.append(["ins", i, rng.choice([0, size[i], rng.randint(0, size[i])]), rng.randrange(20)]); size[i] += 1
        elif x < 0.95:
            j = rng.randrange(2)
            if size[i] + size[j] <= maxlen: h.append(["merge", i, j]); size[i] += size[j]
        elif x < 0.96: h.append(["mergenull", i])
        elif x < 0.97: h.append(["null"])
        else: h.append(["iter", i, rng.randint(0, size[i] + 1), rng.choice([0, 1, -7])])
    return h

def large_lists(rng, n):
    """few operations on many elements"""
    hs = []
    for _ in range(n):
        h = [["mk", rng.choice([0, 2]), rng.choice([0, 1, 10, 64, 100, 1000])]]; size = [0, 0]
        for _ in range(rng.choice([8, 14])):
            i = rng.randrange(2); x = rng.random(); k = rng.choice([1, 60, 127, 128, 255, 256, 257, 500, 1023, 1024, 1100])
            at = rng.choice([0, size[i], rng.randint(0, size[i])])
            if x < 0.3 and size[i] < 3000: h.append(["appn", i, k, rng.randrange(4000)]); size[i] += k
            elif x < 0.5 and size[i] < 3000: h.append(["insn", i, at, k, rng.randrange(4000)]); size[i] += k
            elif x < 0.75: h.append(["remn", i, at, k]); size[i] -= min(k, size[i] - at)
            elif x < 0.85 and size[0] + size[1] < 3000: h.append(["merge", i, 1 - i]); size[i] += size[1 - i]
            elif x < 0.9: h.append(["iter", i, rng.randint(0, size[i]), 5])
            else: h += [["ins", i, at, 7], ["rem", i, rng.randint(0, size[i])]]; size[i] = None
            if size[i] is None: size[i] = sum_size(h, i)
        hs.append(h)
    return hs
def sum_size(h, i):
    size = [0, 0]
    for o in h[1:]:
        if o[0] == "appn": size[o[1]] += o[2]
        elif o[0] == "insn": size[o[1]] += o[3]
        elif o[0] == "ins": size[o[1]] += 1
        elif o[0] == "remn": size[o[1]] -= max(0, min(o[3], size[o[1]] - o[2]))
        elif o[0] == "rem": size[o[1]] -= o[2] < size[o[1]]
        elif o[0] == "merge": size[o[1]] += size[o[2]]
    return size[i]
def steps(rng, top):
    """n keys k, k + d, ... of different classes"""
    d = rng.choice([1, 1, 1, 2, 7, -1, -1, -3]); n = rng.choice([1, 20, 130, 300, 520])
    n = min(n, (top - 1) // abs(d)); k = rng.randint(1, top - n * abs(d)) if d > 0 else rng.randint(n * -d, top)
    return [k + rng.choice([0, 0, 10000]), n, d]
def large_assoc(rng, n, two, extra):
    """maps and sets with hundreds of entries; extra: operations on the two together"""
    hs = []
    for _ in range(n):
        top = rng.choice([600, 900, 5000]); h = [["mk", rng.choice([0, 2]), 9]]
        h.append(["addn", 0] + steps(rng, top))
        for _ in range(rng.choice([8, 12])):
            m = rng.randrange(2) if two else 0; x = rng.random()
            h.append(["addn" if x < 0.4 else "remn" if x < 0.65 else "findn", m] + steps(rng, top) if x < 0.8 else rng.choice(extra(m)))
        hs.append(h)
    return hs

def L01(ck):
    q = ck.quick
    cases = emit(ck, "ListSpec", {"MAXLEN": 3 if q else 4, "VALS": "1..2", "CAPS": "{0,1,3}" if q else "{0,1,2,3,5}", "POLS": "{0,2}"},
                 invariants=["TypeOK", "LengthLaw", "RemLaw"])
    ck.replay("drv_cont:list", cases, label="ListSpec", leak=True)
    hs = [list_history(ck.rng, ck.rng.choice([30, 80, 200]), ck.rng.choice([0, 2]), ck.rng.choice([6, 20, 100])) for _ in range(60 if q else 600)]
    ck.validate("ListSpec", "drv_cont:list", hs, {"MAXLEN": 0, "VALS": "{}", "CAPS": "{}", "POLS": "{}"}, label="list histories", leak=True)
    ck.validate("ListSpec", "drv_cont:list", large_lists(ck.rng, 10 if q else 80), {"MAXLEN": 0, "VALS": "{}", "CAPS": "{}", "POLS": "{}"}, label="large lists", leak=True)

MAPC = {"KEYS": "{}", "VALS": "{}", "MAXLEN": 0, "POLS": "{}", "NRC": 9, "FAM": '"one"'}
MAPINV = dict(invariants=["Unique"], properties=["FunLaw", "OthersLaw"])

def map_history(rng, n, nkeys, fam):
    """random operations; fam selects the mix: 'one' (single map), 'enum' (snapshots and iteration), 'two' (merge and clone)"""
    pol = rng.choice([0, 0, 2])
    h = [["mk", pol, 9]]
    dele = rng.choice([0.1, 0.3, 0.45])
    var = lambda: rng.choice([0, 0, 10000])
    asc = rng.random() < 0.3; c = 0
    for _ in range(n):
        m = rng.randrange(2) if fam == "two" else 0
        c += 1
        k = (c % nkeys if asc else rng.randrange(nkeys)) + var()
        x = rng.random()
        if x < dele: h.append(["rem", m, k])
        elif x < 0.8: h.append(["add", m, k, rng.randint(1, 9)])
        elif x < 0.86: h.append(["find", m, k])
        elif x < 0.9: h.append(["ren", m, k, rng.randrange(nkeys) + var()])
        elif x < 0.91: h.append(["nullkey", m])
        elif x < 0.92: h.append(["nullmap"])
        elif fam == "enum" and x < 0.96: h.append(["snap", m, rng.randrange(4)])
        elif fam == "two" and x < 0.97: h.append(rng.choice([["merge", m, 1 - m, rng.randrange(4)], ["clone", m, 1 - m]]))
        elif fam == "two" and x < 0.98: h.append(["renew", m])
        else: h.append(["iter", m, rng.randrange(nkeys), rng.choice([0, 2, -3])])
    return h

def map_check(ck, fam, consts, tconsts, histfam):
    q = ck.quick
    cases = emit(ck, "MapSpec", consts if q else tconsts, **MAPINV)
    ck.replay("drv_cont:map", cases, label="MapSpec", leak=True)
    hs = [map_history(ck.rng, ck.rng.choice([20, 60, 150]), ck.rng.choice([4, 10, 30, 90]), histfam) for _ in range(40 if q else 500)]
    ck.validate("MapSpec", "drv_cont:map", hs, MAPC, label="map histories", leak=True)
    ex = {"one": lambda m: [["iter", m, ck.rng.randint(0, 600), 3], ["renew", m]], "enum": lambda m: [["snap", m, k] for k in range(4)],
          "two": lambda m: [["merge", m, 1 - m, k] for k in range(4)] + 2 * [["clone", m, 1 - m]]}[histfam]
    ck.validate("MapSpec", "drv_cont:map", large_assoc(ck.rng, 5 if q else 40, histfam == "two", ex), MAPC, label="large maps", leak=True)

def M01(ck):
    map_check(ck, "one", {"KEYS": "{1,2,3,10001}", "VALS": "1..2", "MAXLEN": 3, "POLS": "{0,2}", "NRC": 3, "FAM": '"one"'},
              {"KEYS": "{1,2,3,4,10001,10004}", "VALS": "1..2", "MAXLEN": 4, "POLS": "{0,2}", "NRC": 3, "FAM": '"one"'}, "one")
def M02(ck):
    map_check(ck, "snap", {"KEYS": "1..3", "VALS": "1..2", "MAXLEN": 2, "POLS": "{0,2}", "NRC": 3, "FAM": '"snap"'},
              {"KEYS": "1..3", "VALS": "1..2", "MAXLEN": 3, "POLS": "{0,2}", "NRC": 3, "FAM": '"snap"'}, "enum")
def M03(ck):
    map_check(ck, "two", {"KEYS": "{1,2,10002}", "VALS": "1..2", "MAXLEN": 2, "POLS": "{0,2}", "NRC": 3, "FAM": '"two"'},
              {"KEYS": "{1,2,3,10002}", "VALS": "1..2", "MAXLEN": 3, "POLS": "{0}", "NRC": 3, "FAM": '"two"'}, "two")

def set_history(rng, n, nels, two):
    h = [["mk", rng.choice([0, 0, 2]), 9]]
    dele = rng.choice([0.15, 0.3, 0.45]); asc = rng.random() < 0.3; c = 0
    for _ in range(n):
        i = rng.randrange(2) if two else 0
        c += 1
        x = (c % nels if asc else rng.randrange(nels)) + rng.choice([0, 0, 10000])
        p = rng.random()
        if p < dele: h.append(["rem", i, x])
        elif p < 0.85: h.append(["add", i, x])
        elif p < 0.9: h.append(["find", i, x])
        elif p < 0.905: h.append(["clear", i])
        elif p < 0.915: h.append(["null"])
        elif two: h.append(rng.choice([["union", 0, 1], ["union", 1, 0], ["union", i, i], ["clone", i], ["drop"], ["add", 2, x], ["rem", 2, x], ["clear", 2]]))
    return h

def X01(ck):
    q = ck.quick
    inv = dict(invariants=["OncePerClass"], properties=["MemberLaw", "OperandsLaw"])
    cases = emit(ck, "SetSpec", {"ELS": "{1,2,3,4,5,10002}" if q else "{1,2,3,4,5,6,10002,10005}", "POLS": "{0,2}", "NRC": 5, "FAM": '"one"'}, **inv)
    cases += emit(ck, "SetSpec", {"ELS": "{1,2,10001}" if q else "{1,2,3,10001}", "POLS": "{0,2}", "NRC": 3, "FAM": '"two"'}, **inv)
    ck.replay("drv_cont:set", cases, label="SetSpec", leak=True)
    hs = [set_history(ck.rng, ck.rng.choice([20, 60, 150]), ck.rng.choice([4, 10, 30, 90]), ck.rng.random() < 0.5) for _ in range(40 if q else 500)]
    ck.validate("SetSpec", "drv_cont:set", hs, {"ELS": "{}", "POLS": "{}", "NRC": 9, "FAM": '"one"'}, label="set histories", leak=True)
    ck.validate("SetSpec", "drv_cont:set", large_assoc(ck.rng, 6 if q else 50, True, lambda m: [["union", m, 1 - m], ["clone", m], ["drop"], ["clear", m]]),
                {"ELS": "{}", "POLS": "{}", "NRC": 9, "FAM": '"one"'}, label="large sets", leak=True)

def K01(ck):
    q = ck.quick
    cases = emit(ck, "StackSpec", {"CAPS": "{0,1,2,4}" if q else "{0,1,2,3,5}", "VALS": "1..2", "POLS": "{0,2}", "NRC": 2}, invariants=["Bounded"], properties=["Lifo"])
    ck.replay("drv_cont:stack", cases, label="StackSpec", leak=True)
    hs = []
    for _ in range(40 if q else 400):
        cap = ck.rng.choice([0, 1, 2, 3, 7, 20, 60]); up = ck.rng.choice([0.4, 0.5, 0.7])
        hs.append([["mk", ck.rng.choice([0, 2]), cap, 9]] + [(["push", ck.rng.randint(1, 9)] if ck.rng.random() < up else ["pop"]) if ck.rng.random() < 0.9
                   else ["top", ck.rng.randint(0, cap + 1)] for _ in range(ck.rng.choice([20, 100, 200]))])
    for cap in ck.rng.sample([128, 255, 256, 257, 1000, 1024, 4096], 4 if q else 7):
        hs.append([["mk", ck.rng.choice([0, 2]), cap, 9]] + [[ck.rng.choice(["pushn", "pushn", "popn"]), ck.rng.choice([1, cap // 3, cap // 2, cap - 1, cap, cap + 1])] for _ in range(10)])
        for o in hs[-1][1:]: o += [ck.rng.randrange(9)] if o[0] == "pushn" else []
    ck.validate("StackSpec", "drv_cont:stack", hs, {"CAPS": "{}", "VALS": "{}", "POLS": "{}", "NRC": 9}, label="stack histories", leak=True)

# strings with equal hashes (h = 31*h + c): Aa/BB, AaAa/BBBB/AaBB/BBAa, and the empty string
COLL = ["Aa", "BB", "AaAa", "BBBB", "AaBB", "BBAa", "", "A", "B", "a", "AaAaAa", "BBBBBB", "AaAaBB"]
def D01(ck):
    q = ck.quick
    ks = "{" + ",".join('"%s"' % k for k in (["Aa", "BB", "", "k"] if q else ["Aa", "BB", "", "k", "AaAa"])) + "}"
    cases = emit(ck, "DictSpec", {"KEYS": ks, "VALS": "1..2", "SIZES": "{0,1,3}", "POLS": "{0,2}", "MAXADD": 4 if q else 5}, view="V", properties=["FirstWins"])
    ck.replay("drv_cont:dict", cases, label="DictSpec", leak=True)
    hs = []
    for _ in range(30 if q else 300):
        n = ck.rng.choice([5, 30, 150, 400]); size = ck.rng.choice([0, 1, 2, 5, n // 2, n, 2 * n])
        pool = COLL + ["key%d" % i for i in range(n)] + ["%c%c%c" % (97 + i % 26, 97 + i // 26 % 26, 97 + i // 676) for i in range(n)]
        pool = ck.rng.sample(pool, min(len(pool), n + 3))
        h = [["mk", ck.rng.choice([0, 2]), size]]
        for k in pool[:n]:
            if ck.rng.random() < 0.1: h.append(["add", ck.rng.choice(pool), ck.rng.randrange(50)])
            h.append(["add", k, ck.rng.randrange(50)])
            for _ in range(2): h.append(["find", ck.rng.choice(pool)])
        h += [["find", k] for k in pool]
        hs.append(h)
    ck.validate("DictSpec", "drv_cont:dict", hs, {"KEYS": "{}", "VALS": "{}", "SIZES": "{}", "POLS": "{}", "MAXADD": 0}, label="dict histories", leak=True)

def cost_accept(e, g):
    return e["r"] == g["r"] and e["o"][0] == g["o"][0] and g["o"][1] <= e["o"][1] and g["o"][2] <= e["o"][2]

def X02(ck):
    q = ck.quick
    cases = emit(ck, "Avl", {"N": 7 if q else 9, "KINDS": "{0,1}"}, invariants=["TreeOK", "CostLaw"], properties=["SetLaw"])
    ck.replay("drv_cont:cost", cases, label="Avl", accept=cost_accept)
    hs = []
    big = 3000 if q else 20000
    for kind in (0, 1):
        n = big if kind == 0 else big // 4
        for pat in range(16 if q else 80):
            r = ck.rng; h = [["mk", kind]]
            if pat % 2:      # churn: a window slides over the key space, most of it is removed again, in both directions
                w, m, at = r.choice([50, 200, 400]), n, 0
                for ph in range(60):
                    a = at % (m - w) + 1; at += w if r.random() < 0.8 else r.randint(1, w)
                    h.append(["addrange"] + r.choice([[a, a + w, 1], [a + w, a, 1], [a, a + w, 2]]))
                    if r.random() < 0.6:
                        mm = r.choice([5, 9, 16]); h.append(["remskip"] + r.choice([[a, a + w], [a + w, a]]) + [mm, r.randrange(mm)]); continue
                    for _ in range(r.randint(1, 3)):
                        b = max(1, a - r.randint(0, w)); c = b + r.randint(w // 2, w)
                        h.append(["remrange"] + r.choice([[b, c], [c, b]]) + [r.choice([1, 1, 1, 2, 3])])
                hs.append(h); continue
            if pat == 0: h += [["addrange", 1, n, 1], ["remrange", 1, n // 2, 1], ["addrange", n // 4, 1, 1]]
            elif pat == 1: h += [["addrange", n, 1, 1], ["remrange", n, n // 3, 2], ["addrange", 1, n, 3]]
            elif pat == 2: h += [["addrange", 1, n, 2], ["addrange", n, 2, 2], ["remrange", 3, n, 3]]
            elif pat == 3: h += [x for k in range(1, 200) for x in (["add", k], ["add", 1000 - k])] + [["rem", k] for k in range(1, 200, 2)]
            else:
                for _ in range(r.choice([10, 60])):
                    if r.random() < 0.25:
                        a, b = r.randint(1, n), r.randint(1, n)
                        h.append([r.choice(["addrange", "addrange", "remrange"]), a, b, r.randint(1, 9)] if a != b else ["add", a])
                    else:
                        k = r.randint(1, n)
                        h += [[r.choice(["add", "add", "rem"]), (k + j) % n + 1] for j in range(r.choice([1, 10]))]
            hs.append(h)
    # an adversary finds, on the real structure, the places to deepen and to thin out; its operations are then an ordinary history
    adv = [[["mk", kind], ["adv", 800 if q else 3000, k, sd]] for kind in (0, 1) for k in (60, 300, 700) for sd in range(2 if q else 8)]
    for v, rr in ck.record("drv_cont:cost", adv, secs=60).items():
        for c, outs in rr:
            hs.append([["mk", c.ops[0][1]]] + [["add", x] if x > 0 else ["rem", -x] for x in outs[1]["r"]])
    ck.validate("Cost", "drv_cont:cost", hs, {}, label="large trees", secs=60)

CHECKS = {"X02": X02, "L01": L01, "M01": M01, "M02": M02, "M03": M03, "X01": X01, "K01": K01, "D01": D01}

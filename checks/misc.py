"""Environments, strings, text functions, string views, boxed values."""
from engine import graph_cases
import heap
from cont import emit

def flat(ck, module, consts, **kw):
    """specifications of pure functions: one case per operation"""
    recs = []
    ck.model(module, consts, action_constraint=kw.pop("emit", "EmitGraph"), on_record=recs.append, **kw)
    return graph_cases(recs)

# ---------------------------------------------------------------- environments
def env_history(rng, n):
    h = []; ne = nc = 0; withm = []
    for _ in range(n):
        x = rng.random()
        if ne == 0 or (x < 0.2 and ne < 30):
            if withm and rng.random() < 0.2: h.append(["shared", rng.randint(0, ne), rng.choice(withm)]); ne += 1; withm.append(ne)
            else:
                m = rng.random() < 0.7; h.append(["env", rng.choice([0, ne, ne, rng.randint(0, ne)]), int(m)]); ne += 1
                if m: withm.append(ne)
        elif x < 0.55 and withm: h.append(["bind", rng.choice(withm), rng.choice(["x", "y", "zz", "w"]), rng.randint(1, 99)])
        elif x < 0.7 and withm: h.append(["unbind", rng.choice(withm), rng.choice(["x", "y", "zz", "w"])])
        elif x < 0.8 and nc < 30: h.append(["clo", rng.randint(0, ne)]); nc += 1
        elif nc: h.append(["call", rng.randint(1, nc)] + [rng.randint(-5, 99) for _ in range(rng.choice([0, 1, 2, 3, 6]))])
    return h

def E01(ck):
    q = ck.quick
    c = {"NAMES": '{"x","y"}', "VALS": "1..2", "MAXENV": 3, "MAXCLO": 0, "SHARE": "FALSE", "ARGS": "{<<>>}"}
    inv = dict(invariants=["Lexical"])
    cases = emit(ck, "EnvSpec", dict(c, NAMES='{"x"}' if q else '{"x","y"}'), **inv)
    cases += emit(ck, "EnvSpec", dict(c, NAMES='{"x"}', SHARE="TRUE", VALS="1..1" if q else "1..2"), **inv)
    cases += emit(ck, "EnvSpec", dict(c, NAMES='{"x"}', MAXENV=2, MAXCLO=2, ARGS="{<<>>, <<7>>, <<1, 2>>, <<3, 1, 2>>, <<1, 2, 3, 4, 5, 6>>}"), **inv)
    ck.replay("drv_misc:env", cases, label="EnvSpec", leak=True)
    hs = [env_history(ck.rng, ck.rng.choice([15, 40, 100])) for _ in range(60 if q else 600)]
    ck.validate("EnvSpec", "drv_misc:env", hs, {"NAMES": "{}", "VALS": "{}", "MAXENV": 0, "MAXCLO": 0, "SHARE": "FALSE", "ARGS": "{}"}, label="environment histories", leak=True)
    # ownership of outer environments and variable maps: Heap.tla
    heap.graph(ck, KINDS=heap.S("env clo map"), OPS=heap.S("del hold"), SLOTS=1)
    heap.graph(ck, KINDS=heap.S("env map leaf"), OPS=heap.S("del"), POLS="{0,1,2}", SLOTS=1)
    heap.sim(ck, 120 if q else 3000, 30, KINDS=heap.S("env clo map key leaf"), OPS=heap.S("del hold root"), NOBJ=12, SLOTS=3)

# ---------------------------------------------------------------- strings
def runs(rng, total, alpha=(97, 98, 99)):
    r = []
    while total > 0:
        n = min(total, rng.choice([1, 1, 2, 3, 10, 100, 1000])); r += [rng.choice(alpha), n]; total -= n
    return r

def str_history(rng, n):
    h = []; k = 0
    sizes = [0, 1, 2, 5, 20, 55, 63, 64, 65, 100, 127, 128, 200, 500]
    ws = rng.random() < 0.3
    al = (97, 32, 9, 10, 13) if ws else (97, 98, 200, 255, 37)   # '%' inside arguments is data
    for _ in range(n):
        x = rng.random()
        if k == 0 or (x < 0.08 and k < 6):
            h.append(["mk", rng.choice(["fmt", "vfmt", "strn", "sized", "null", "num", "mix", "lit"]), rng.randint(0, 1), rng.choice(sizes)] + runs(rng, rng.choice(sizes), (97, 98)))
            k += 1; continue
        i = rng.randint(1, k)
        if x < 0.55: h += [["add", i, rng.choice(al)]] * rng.choice([1, 1, 5, 30])
        elif x < 0.75: h.append(["cat", i] + runs(rng, rng.choice(sizes[:12]), al))
        elif x < 0.8: h.append(["catmix", i, rng.randint(-10 ** 6, 10 ** 6)] + runs(rng, rng.choice(sizes[:8]), al))
        elif x < 0.86: h.append(["rep", i] + runs(rng, rng.choice(sizes), al))
        elif x < 0.88: h.append(["repmix", i, rng.randint(-10 ** 6, 10 ** 6)] + runs(rng, rng.choice(sizes), al))
        elif x < 0.95: h.append([rng.choice(["ltrim", "rtrim"]), i])
        elif x < 0.97: h.append([rng.choice(["catnull", "repnull"]), i])
        else: h.append(["meth", i, rng.randint(0, 1)])
    return h

def S01(ck):
    q = ck.quick
    c = {"SIZES": "{0,70}", "HOWS": '{"fmt","strn","sized","vfmt","lit"}', "LENS": "0..150" if q else "0..330", "EXTRA": "{0,1,7,8,9,63,64,65,200}", "METHS": "0..1"}
    cases = flat(ck, "StrSpec", dict(c, SIZES="{0}"), emit="EmitOps", properties=["LenLaw"])
    cases += flat(ck, "StrSpec", dict(c, SIZES="0..150" if q else "0..330", HOWS='{"null","sized"}', LENS="{0,3}"), emit="EmitOps", properties=["LenLaw"])
    cases += flat(ck, "StrSpec", dict(c, SIZES="{0,-1,9,10,-2147483647,2147483647}", HOWS='{"num","mix"}', LENS="{0,1,40,44,45,46,47,60}"), emit="EmitOps", properties=["LenLaw"])
    ck.replay("drv_misc:str", cases, label="StrSpec", leak=True)
    # every concatenated / replaced length at a fixed start
    cases = flat(ck, "StrSpec", dict(c, SIZES="{0}", HOWS='{"fmt"}', LENS="{0,10,44}", EXTRA="0..300" if q else "0..600"), emit="EmitOps", properties=["LenLaw"])
    ck.replay("drv_misc:str", cases, label="StrSpec lengths", leak=True)
    hs = [str_history(ck.rng, ck.rng.choice([20, 60])) for _ in range(60 if q else 600)]
    # one character at a time across many boundaries
    for m in (0, 1): hs.append([["mk", "fmt", m, 0]] + [["add", 1, 97 + i % 3] for i in range(700)])
    hs.append([["mk", "null", 1, 64]] + [["cat", 1, 120, 7] for _ in range(200)])
    hs.append([["mk", "strn", 0, 0, 97, 5]] + [["cat", 1, 120, 61] for _ in range(40)])
    ck.validate("StrSpec", "drv_misc:str", hs, {k: "{}" for k in c}, label="string histories", leak=True)

# ---------------------------------------------------------------- trimming, replacement
TEXTC = {"FAM": '"trim"', "ALPHA": "{}", "MAXLEN": 0, "NEEDLES": "{}", "NEWS": "{}"}
def rbytes(rng, n, alpha): return [rng.choice(alpha) for _ in range(n)]

def S02(ck):
    q = ck.quick
    cases = flat(ck, "TextSpec", dict(TEXTC, ALPHA="{9,10,13,32,97,11}", MAXLEN=4 if q else 5), invariants=["TrimLaw"])
    cases += flat(ck, "TextSpec", dict(TEXTC, ALPHA="{32,97}", MAXLEN=9 if q else 12), invariants=["TrimLaw"])
    ck.replay("drv_misc:text", cases, label="TextSpec", leak=True)
    hs = []
    for _ in range(100 if q else 1000):
        ws = rbytes(ck.rng, ck.rng.choice([0, 1, 5, 70, 300]), (9, 10, 13, 32)); we = rbytes(ck.rng, ck.rng.choice([0, 1, 5, 70, 300]), (9, 10, 13, 32))
        body = rbytes(ck.rng, ck.rng.choice([0, 1, 2, 50]), list(range(1, 256)))
        hs.append([[o, ws + body + we] for o in ("ltrim", "rtrim")])
    ck.validate("TextSpec", "drv_misc:text", hs, TEXTC, label="trim inputs", leak=True)

def S03(ck):
    q = ck.quick
    c = dict(TEXTC, ALPHA="{97,98}", NEEDLES="{<<97>>, <<97,97>>, <<97,98>>, <<98,97,98>>, <<97,97,97,97,97,97,97>>}", NEWS="{<<>>, <<120>>, <<97,97>>, <<120,121,122,97>>}")
    cases = flat(ck, "TextSpec", dict(c, FAM='"all"', MAXLEN=6 if q else 9), invariants=["AllLaw"])
    cases += flat(ck, "TextSpec", dict(c, FAM='"at"', MAXLEN=5 if q else 7))
    cases += flat(ck, "TextSpec", dict(c, FAM='"ext"', MAXLEN=4 if q else 6))
    cases += flat(ck, "TextSpec", dict(c, FAM='"ext"', ALPHA="{0,97,200}", MAXLEN=3 if q else 4, NEEDLES="{<<200>>, <<97,200>>}"))
    ck.replay("drv_misc:text", cases, label="TextSpec", leak=True)
    hs = []
    for _ in range(150 if q else 1500):
        r = ck.rng; al = r.choice([(97, 98), (97, 98, 99, 200), tuple(range(1, 256))])
        s = rbytes(r, r.choice([0, 1, 10, 60, 300]), al)
        nd = lambda: (lambda i, n: s[i:i + n] if s and r.random() < 0.7 and s[i:i + n] else rbytes(r, r.choice([1, 2, 3]), al))(r.randrange(len(s) or 1), r.choice([1, 1, 2, 3, 8]))
        nw = lambda: rbytes(r, r.choice([0, 1, 2, 5, 40]), al)
        i = r.randint(0, len(s)); h = [["all", s, nd(), nw()], ["at", s, i, r.randint(0, len(s) - i), nw()]]
        for k in (0, 1, 2, 3, 17):
            h.append(["ext", s, r.randint(0, 1), r.randint(0, 1) if k else 1] + sum(([nd(), nw()] for _ in range(k)), []))
        hs.append(h)
    ck.validate("TextSpec", "drv_misc:text", hs, TEXTC, label="replacement inputs", leak=True)

# ---------------------------------------------------------------- string views
def V01(ck):
    q = ck.quick
    c = {"FAM": '"one"', "ALPHA": "{}", "MAXLEN": 0, "ALPHA2": "{}", "MAXLEN2": 0}
    cases = flat(ck, "ViewSpec", dict(c, ALPHA="{32,97,57,200}", MAXLEN=5 if q else 6), invariants=["Conserve"])
    cases += flat(ck, "ViewSpec", dict(c, ALPHA="{9,10,11,12,13,14,8,31,32,33}", MAXLEN=3 if q else 4), invariants=["Conserve"])
    cases += flat(ck, "ViewSpec", dict(c, ALPHA="{64,65,90,91,96,97,122,123,47,48,57,58}", MAXLEN=2 if q else 3), invariants=["Conserve"])
    cases += flat(ck, "ViewSpec", dict(c, FAM='"delim"', ALPHA="{44,97,0}", MAXLEN=5 if q else 7, ALPHA2="{44,0,98}"), invariants=["Conserve"])
    cases += flat(ck, "ViewSpec", dict(c, FAM='"two"', ALPHA="{97,98}", MAXLEN=6 if q else 8, ALPHA2="{97,98}", MAXLEN2=3 if q else 4), invariants=["Conserve"])
    cases += flat(ck, "ViewSpec", dict(c, FAM='"two"', ALPHA="{64,65,90,91,96,97,122,123,32,0}", MAXLEN=2, ALPHA2="{64,65,90,91,96,97,122,123,32,0}", MAXLEN2=2), invariants=["Conserve"])
    ck.replay("drv_misc:view", cases, label="ViewSpec", leak=True)
    hs = []
    for _ in range(100 if q else 1000):
        r = ck.rng; al = r.choice([(97, 98), (97, 65, 98, 66, 32), tuple(range(256)), tuple(range(48, 58))])
        s = rbytes(r, r.choice([0, 1, 8, 40, 100]), al); t = rbytes(r, r.choice([0, 1, 2, 3]), al)
        if s and r.random() < 0.6: i = r.randrange(len(s)); t = s[i:i + r.choice([1, 2, 5, 100])]
        d = [r.choice(list(al))]
        twin = [x + 32 if 65 <= x <= 90 and r.random() < 0.5 else x - 32 if 97 <= x <= 122 and r.random() < 0.5 else x for x in s]
        h = [[o, s] for o in ("trim", "trim_left", "trim_right", "take_alpha", "take_digit", "chop_alpha", "chop_digit", "u64", "chop_u64")]
        h += [[o, s, d] for o in ("chop_delim", "try_chop", "try_chop0", "index")] + [[o, s, t] for o in ("chop_sv", "eq", "eqi", "starts", "ends")]
        h += [["eqi", s, twin], ["eq", s, list(s)], ["ends", s, s[-len(t):] if t else []], ["chop_left", s, r.randint(0, len(s) + 3)], ["chop_right", s, r.randint(0, len(s) + 3)]]
        dg = rbytes(r, r.choice([1, 5, 19, 20, 21, 25]), range(48, 58)); h += [["u64", dg + t], ["chop_u64", dg + t]]
        if 0 not in s: h.append(["cstr", s])
        hs.append(h)
    ck.validate("ViewSpec", "drv_misc:view", hs, c, label="view inputs", leak=True)

# ---------------------------------------------------------------- boxed values, blocks, products
WIDTH = [8, 4, 8, 4, 2, 1, 8, 4, 2, 1]
def boundary(t):
    w = WIDTH[t]; vs = []
    for b in (0, 1, 9, 10, 99, 100, (1 << (8 * w - 1)) - 1, 1 << (8 * w - 1), (1 << (8 * w - 1)) + 1, (1 << 8 * w) - 1, (1 << 8 * w) - 10, 10 ** (2 * w) // 3): vs.append(b % (1 << 8 * w))
    return [[(v >> 8 * i) & 255 for i in range(w)] for v in vs]
REALS = ["0", "-0", "1", "-1", "0.1", "0.5", "100000", "999999", "999999.4", "999999.5", "1000000", "123456.5", "123457.5", "1234565", "0.0001", "0.00009999995", "0.000099999949", "0.00001", "9.5e-5",
         "1e10", "1.5e-7", "-2.5e20", "3.4028234e38", "1.17549435e-38", "1e-45", "1e22", "1e23", "inf", "-inf", "nan", "0.30000001", "16777216", "12.5", "1.000005", "1.0000049", "255", "1e100", "-1e-100", "1.7976931348623157e308", "2.2250738585072014e-308", "4e-320"]
def bytes_of(x, t):
    import struct
    try: return list(struct.pack("<f" if t else "<d", float(x)))
    except OverflowError: return [0, 0, 128, 127]
def real(r, t):
    x = r.random()
    if x < 0.3: return bytes_of(r.choice(REALS), t)
    if x < 0.7: return bytes_of(r.choice([-1, 1]) * r.randrange(10 ** r.randint(1, 9)) / 10 ** r.randint(0, 9), t)
    return bytes_of(r.choice([-1, 1]) * r.uniform(1, 10) * 10.0 ** r.randint(-38, 38), t)
def B01(ck):
    q = ck.quick
    tl = lambda b: "<<" + ",".join(map(str, b)) + ">>"
    C = {"BOXES": "{}", "SIZES": "{}", "BLOCKS": "{}", "TAGS": "{}", "MAXOBJ": 0}
    boxes = ",".join('<<"box",%d,%s>>' % (t, tl(v)) for t in range(10) for v in boundary(t))
    # every type, boundary values, every buffer size
    cases = emit(ck, "BoxSpec", dict(C, BOXES="{%s}" % boxes, SIZES="0..22", MAXOBJ=1), properties=["Immutable"])
    reals = ",".join('<<"box",%d,%s>>' % (t, tl(bytes_of(x, t))) for t in (0, 1) for x in REALS)
    cases += emit(ck, "BoxSpec", dict(C, BOXES="{%s}" % reals, SIZES="{0,1,2,7,8,13,14,30}", MAXOBJ=1))
    if not q:   # all values of the 8 and 16 bit types
        cases += emit(ck, "BoxSpec", dict(C, BOXES='{<<"box",t,<<x,y>>>> : t \\in {4,8}, x \\in 0..255, y \\in {0,1,9,127,128,254,255}} \\cup {<<"box",t,<<x>>>> : t \\in {5,9}, x \\in 0..255}', SIZES="{0,1,3,7}", MAXOBJ=1))
    else:
        cases += emit(ck, "BoxSpec", dict(C, BOXES='{<<"box",t,<<x>>>> : t \\in {5,9}, x \\in 0..255}', SIZES="{0,3,7}", MAXOBJ=1))
    cases += emit(ck, "BoxSpec", dict(C, BLOCKS='{<<"block",h,n,7>> : h \\in {"zero","raw","init"}, n \\in {0,1,7,8,9,63,64,65,1000}}', MAXOBJ=1))
    cases += emit(ck, "BoxSpec", dict(C, BOXES='{<<"box",7,<<1,0,0,0>>>>}', TAGS="{0,1,77}", MAXOBJ=3), properties=["Immutable"])
    ck.replay("drv_misc:box", cases, label="BoxSpec", leak=True)
    hs = []
    for _ in range(60 if q else 600):
        r = ck.rng; h = []; n = 0; tagable = []
        for _ in range(r.choice([5, 20, 40])):
            x = r.random()
            if x < 0.4 or n == 0:
                t = r.randrange(10); v = real(r, t) if t < 2 and r.random() < 0.8 else list(r.choice(boundary(t))) if r.random() < 0.3 else [r.randrange(256) for _ in range(WIDTH[t])]
                h.append(["box", t, v]); n += 1
                h += [["print", n, r.randint(0, 22)] for _ in range(3)]
            elif x < 0.55: h.append(["block", r.choice(["zero", "raw", "init"]), r.choice([0, 1, 30, 64, 500]), r.randrange(256)]); n += 1
            elif x < 0.7: k = r.choice([2, 3, 4]); h.append(["prod", k] + [r.randint(1, n) for _ in range(k)]); n += 1
            elif x < 0.9: k = r.randint(0, 16); h.append(["ntup", k] + [r.randint(1, n) for _ in range(k)]); n += 1
            else: h.append(["tag", r.randrange(1 << 30), r.randint(0, n)]); n += 1
        hs.append(h)
    ck.validate("BoxSpec", "drv_misc:box", hs, C, label="box histories", leak=True)

CHECKS = {"E01": E01, "S01": S01, "S02": S02, "S03": S03, "V01": V01, "B01": B01}

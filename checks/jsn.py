"""JSON: parsing, printing, editing, merging, selecting, files."""
import concurrent.futures as cf
import glob, os, re, struct
from engine import graph_cases
from misc import flat
import vbuild

def tb(s):
    """a TLA+ byte sequence"""
    return "<<" + ",".join(str(b) for b in (s.encode("latin-1") if isinstance(s, str) else s)) + ">>"
def T(*ss): return "{" + ",".join(tb(s) for s in ss) + "}"
def B(s): return list(s.encode("latin-1") if isinstance(s, str) else s)
PC = {"TOKS": "{}", "MAXTOK": 0, "PRUNE": "FALSE", "FORCE": "{1}", "WRAP": '"no"', "CONTS": "{<<>>}"}
PINV = dict(invariants=["GrammarLaw", "PlaceLaw", "RoundLaw"])
def pflat(ck, toks, n, inv=True, **c):
    kw = PINV if inv else {}
    return flat(ck, "JsonParse", dict(PC, TOKS=toks, MAXTOK=n, **c), view="view", **kw)

# ---- random texts: the input only, what they mean is the specification's business
def rstr(r, n=None):
    out = ""
    for _ in range(r.choice([0, 1, 1, 2, 3, 8]) if n is None else n):
        x = r.random()
        if x < 0.5: out += r.choice("abkxyzAZ019 _-.:,/{}[]'")
        elif x < 0.6: out += r.choice(['\\"', "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t"])
        elif x < 0.75:
            v = r.choice([r.randint(1, 0x7f), r.randint(0x80, 0x7ff), r.randint(0x800, 0xd7ff), r.randint(0xe000, 0xffff)])
            h = "%04x" % v; out += "\\u" + "".join(c.upper() if r.random() < 0.5 else c for c in h)
        elif x < 0.8: out += "\\u%04x\\u%04X" % (r.randint(0xd800, 0xdbff), r.randint(0xdc00, 0xdfff))
        elif x < 0.95: out += chr(r.choice([r.randint(0x80, 0x7ff), r.randint(0x800, 0xd7ff), r.randint(0xe000, 0xffff), r.randint(0x10000, 0x10ffff)])).encode().decode("latin-1")
        elif x < 0.98: out += chr(r.randint(0x20, 0x21))
        else: out += "\x7f"
    return '"' + out + '"'
def rnum(r):
    x = r.random()
    if x < 0.4: return str(r.choice([r.randint(-9, 9), r.randint(-10 ** 6, 10 ** 6), r.randint(-2 ** 63, 2 ** 63 - 1), r.randint(0, 2 ** 64 - 1)]))
    if x < 0.5: return "-" * r.randint(0, 1) + str(r.choice([2 ** 63, 2 ** 64, 10 ** 18, 10 ** 19, 10 ** 20, 2 ** 53]) + r.randint(-2, 2))
    s = "-" * r.randint(0, 1) + str(r.choice([0, r.randint(1, 9), r.randint(1, 10 ** 17)]))
    if r.random() < 0.7: s += "." + "".join(r.choice("0123456789") for _ in range(r.choice([1, 1, 2, 6, 17])))
    if r.random() < 0.6: s += r.choice("eE") + r.choice(["", "+", "-"]) + str(r.choice([0, 1, 5, 20, 300, 308, 309, 324, 999]))
    return s
def rws(r): return "" if r.random() < 0.75 else "".join(r.choice(" \t\n\r") for _ in range(r.choice([1, 1, 2, 5])))
def rdoc(r, d=0):
    x = r.random(); w = lambda: rws(r)
    if d > 5 or x < 0.45:
        return r.choice([lambda: rnum(r), lambda: rnum(r), lambda: rstr(r), lambda: rstr(r), lambda: "true", lambda: "false", lambda: "null"])()
    n = r.choice([0, 1, 1, 2, 3, 5])
    if x < 0.72: return "[" + w() + ",".join(w() + rdoc(r, d + 1) + w() for _ in range(n)) + "]"
    ks = [rstr(r) for _ in range(max(1, n - r.randint(0, 1)))]
    return "{" + w() + ",".join(w() + r.choice(ks) + w() + ":" + w() + rdoc(r, d + 1) + w() for _ in range(n)) + "}"
JUNK = list("[]{}:,\"\\0123456789+-.eEtrufalsn/*# \t\n\r\x00\x01\x1f\x7f\x80\xbf\xc3\xe0\xed\xf0\xff") + ["//", "null", "true", "\\u12", "\\ud800", "[1,]", "{}", "\"a\":", "\n\n", "\x00x"]
def mutate(r, t):
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        i = r.randint(0, len(t)); x = r.random()
        if x < 0.35: t = t[:i] + r.choice(JUNK) + t[i:]
        elif x < 0.6: t = t[:i] + t[i + r.choice([1, 1, 2, 5]):]
        elif x < 0.75: t = t[:i] + r.choice(JUNK) + t[i + 1:]
        elif x < 0.85: t = t[:i]
        else: j = r.randint(0, len(t)); t = t[:i] + t[j:j + r.randint(1, 6)] + t[i:]
    return t
def okay(t): return not re.search(r"\\u0000", t)          # text with an encoded NUL is outside the property
def rtext(r):
    for _ in range(50):
        t = rws(r) + rdoc(r) + rws(r)
        if r.random() < 0.6: t = mutate(r, t)
        if okay(t) and len(t) < 1500: return t
    return "[]"
def lbufable(t): return t.lstrip(" \t\r\n")[:1] not in ("t", "f", "n")   # the state of a shared constant cannot be reached to delete it
CONT = ["", "", "0", "9", ".5", "e1", "E+1", '"', "ull", "rue", "alse", "l", "]", "}", ":1}", ",1]", " ", "\n", "\\", 'a"', "0" * 40]
def parse_history(r, n, lbuf=0.1):
    h = []
    for _ in range(n):
        t = rtext(r)
        if r.random() < lbuf and lbufable(t): h.append(["lbuf", B(t)])
        else: h.append(["parse", r.choice([0, 1, 1]), B(t), B(r.choice(CONT))])
    return h
def validate(ck, hs, label, **kw): ck.validate("JsonParse", "drv_json", hs, PC, label=label, leak=True, **kw)
def nested(op, n, mid="", cl=True):
    o = "".join(op[i % len(op)] for i in range(n)); c = "".join({"[": "]", '{"a":': "}", '[1,': "]", '{"b":2,"a":': "}"}[op[i % len(op)]] for i in range(n))[::-1] if cl else ""
    return o + mid + c
GTOK = ["[", "]", "{", "}", ":", ",", '"a"', "1", "null", " "]

def J01(ck):
    q = ck.quick
    cs = pflat(ck, T(*GTOK), 6 if q else 7, PRUNE="TRUE", FORCE="{0,1}")
    cs += pflat(ck, T("[", "]", ",", "1", "{}"), 8 if q else 10, PRUNE="TRUE", FORCE="{0,1}")
    cs += pflat(ck, T("{", "}", '"a":', '"b":', ",", "1", "[]"), 7 if q else 9, PRUNE="TRUE", FORCE="{0,1}")
    cs += pflat(ck, T("n", "null", "nul", "l", "true", "tru", "e", "false", "fals", " ", "{", "[]"), 3 if q else 4, FORCE="{0,1}")
    for w in ("no", "array"): cs += pflat(ck, "{<<b>> : b \\in 0..255}", 1, FORCE="{0,1}", WRAP='"%s"' % w)
    cs += pflat(ck, T("/", "*", "//", "#", "\0", "1", "[]", "\n", "\xef\xbb\xbf", "\x0b", "\x0c"), 3 if q else 4, FORCE="{0,1}")
    ck.replay("drv_json", cs, label="JsonParse texts", leak=True)
    r = ck.rng
    hs = [parse_history(r, r.choice([10, 30])) for _ in range(120 if q else 2500)]
    for n in (1, 20, 100, 509, 510, 511, 512, 513, 600):
        for op in (["["], ['{"a":'], ["[", '{"a":'], ["[1,", '{"b":2,"a":']):
            mid = r.choice(["1", '""', "[]" if n < 509 else "0", ""]) if op[-1] == "[" else "1"
            hs.append([["deep", r.randint(0, 1), B(nested(op, n, mid))]])
            if q and n > 100: break
    hs += [[["deep", f, B(nested([o], n, m))]] for n in (510, 511) for o, m in (("[", "[]"), ('{"a":', "{}"), ("[", "{}"), ('{"a":', "[]")) for f in (0, 1)]
    # sizes: long arrays and objects, long strings
    for n in (19, 20, 21, 41, 300):
        hs.append([["parse", 1, B("[" + ",".join(str(i) for i in range(n)) + "]"), []], ["parse", 1, B("{" + ",".join('"k%d":%d' % (i * 7919 % 1000, i) for i in range(n)) + "}"), []]])
    hs.append([["parse", 1, B('["' + "x" * n + '"]'), []] for n in (0, 1, 46, 47, 48, 63, 64, 65, 127, 128, 500, 1500)])
    # the repository's own sample texts
    fs = sorted(glob.glob(os.path.join(vbuild.REPO, "cee-json/test/*/*.json"))); h = []
    for f in fs:
        t = open(f, "rb").read().decode("latin-1")
        if len(t) < 3000 and okay(t): h.append(["parse", 1, B(t), []])
    hs += [[x] for x in (r.sample(h, min(len(h), 150)) if q else h)]
    validate(ck, hs, "parse histories")

def J02(ck):
    q = ck.quick
    toks = T("[", "]", "{", "}", ",", '"a"', '"', "1", "-", "1.", "2e", "tru", "nul", "fals", "true", "\\", ":", " ", "\\u00", "\\ud834")
    cs = pflat(ck, toks, 2 if q else 3, FORCE="{0,1}", CONTS=T("", "0", "e1", ".5", '"', "e", "l", "]", "}", "41\""))
    cs += pflat(ck, T("{", '"k"', ":", "1", ",", "-", "[", "n", '"', "0"), 5 if q else 6, PRUNE="TRUE", CONTS=T("5", "}", '"'))
    ck.replay("drv_json", cs, label="JsonParse continuations", leak=True)
    hs = []; r = ck.rng
    for _ in range(40 if q else 600):           # every prefix of a text
        t = rdoc(r)
        if not okay(t) or len(t) > 300: t = '{"a":[1.5e3,-2,true,false,null,"x\\n\\u00e9\\ud834\\udd1e"],"b":{}}'
        hs.append([["parse", r.randint(0, 1), B(t[:k]), B(r.choice(["", t[k:], r.choice(CONT)]))] for k in range(len(t) + 1)][:120])
    for n in range(0, 70, 1 if not q else 3):     # numbers and strings of every length that end exactly at the end
        d = "".join(r.choice("123456789") for _ in range(n + 1)); hs.append([["parse", f, B(x), B(c)] for f in (0, 1) for x in (d, "0." + d, d + "e1", '"' + d + '"', '"\\n' + d + '"') for c in ("", "7")])
    hs += [parse_history(r, 20, 0.5) for _ in range(60 if q else 1000)]
    validate(ck, hs, "prefixes and continuations")

def J03(ck):
    q = ck.quick
    cs = pflat(ck, T("a", '"', "\\", "/", "b", "u", "\x1f", "\x7f", "\x80", "\xc3", "\xa9", "\xed", "\xa0"), 4 if q else 5, WRAP='"quote"', inv=not q)
    esc = ["\\ud834", "\\uDD1E", "\\uD800", "\\uDC00", "\\udbff", "\\udfff", "\\u00e9", "\\u0041", "\\u20AC", "\\u12", "\\uZ000", "\\n", '\\"', "a", "\xc3\xa9", "\xff", "\\u0001", "\\", "\\x", "u", "\\uffff"]
    cs += pflat(ck, T(*esc), 3, WRAP='"quote"', inv=not q)
    cs += pflat(ck, T(*esc), 2 if q else 3, WRAP='"key"')
    cs += pflat(ck, "{<<b>> : b \\in 0..255}", 1, WRAP='"esc"'); cs += pflat(ck, "{<<b>> : b \\in 0..255}", 1, WRAP='"quote"'); cs += pflat(ck, "{<<b>> : b \\in 0..255}", 1, WRAP='"key"')
    cs += pflat(ck, "{<<92,b>> : b \\in 0..255}", 1, WRAP='"quote"')
    cs += pflat(ck, "{<<b>> : b \\in {128,143,144,191,194,224,237,159,160,240,244,245,97}}" if q else "{<<b>> : b \\in {127,128,143,144,191,192,193,194,223,224,237,238,239,159,160,240,244,245,97,255}}", 4, WRAP='"esc"', inv=False)
    ck.replay("drv_json", cs, label="JsonParse strings", leak=True)
    r = ck.rng; hs = []
    hexes = ["\\u%04x" % v if v % 3 else "\\u%04X" % v for v in range(1, 65536) if not 0xd800 <= v <= 0xdfff]
    pick = hexes if not q else hexes[:2100] + r.sample(hexes, 4000) + ["\\ud7ff", "\\ue000", "\\uffff", "\\ufffe"]
    for i in range(0, len(pick), 150): hs.append([["parse", 1, B('"' + "".join(pick[i:i + 150]) + '"'), []]])
    sur = ["\\u%04x\\u%04X" % (a, b) for a in (0xd800, 0xd801, 0xd834, 0xdbfe, 0xdbff) for b in (0xdc00, 0xdc01, 0xdd1e, 0xdffe, 0xdfff)] + ["\\u%04x\\u%04x" % (r.randint(0xd800, 0xdbff), r.randint(0xdc00, 0xdfff)) for _ in range(200 if q else 5000)]
    for i in range(0, len(sur), 60): hs.append([["parse", 1, B('"' + "".join(sur[i:i + 60]) + '"'), []]])
    for lead in range(128, 256):       # every lead byte, followed by continuation bytes
        h = []
        for n in range(5):
            for t in sorted({(x,) + tuple(r.choice([128, 144, 191]) for _ in range(n - 1)) for x in (128, 143, 144, 159, 160, 191)} if n else {()}): h.append(["parse", 1, [34, 92, 110, lead] + list(t) + [34], []])
        hs.append(h)
    for _ in range(60 if q else 1500):
        h = []
        for _ in range(25):
            s = rstr(r, r.choice([1, 2, 5, 20, 60])); s = s[0] + mutate(r, s[1:-1]) + s[-1] if r.random() < 0.5 else s
            if okay(s): h.append(["parse", 1, B(r.choice([s, "{%s:%s}" % (s, s), "[%s]" % s])), []])
        hs.append(h)
    validate(ck, hs, "string histories")
    strs = [["s", [b]] for b in range(1, 256)] + [["s", [r.randint(1, 255) for _ in range(n)]] for n in (1, 2, 3, 10, 50, 200) for _ in range(5 if q else 60)]
    pr = [["print", f, ["o", [[v[1], v]]] if r.random() < 0.3 else v, 0] for v in strs for f in (0, 1)]
    validate_print(ck, [pr[i:i + 30] for i in range(0, len(pr), 30)], "printed strings")

# ---- printing
RC = {"LEAVES": "{}", "KEYS": "{}", "WIDTH": 0, "DEPTH": 0, "SHAPES": "{0,1}", "TEXTS": "{}"}
RINV = ["CompactLaw", "EscapeLaw", "RoundLaw6"]
def validate_print(ck, hs, label, **kw): ck.validate("JsonPrint", "drv_json", hs, RC, label=label, leak=True, **kw)
def printed(ck, label, sizes=(0, 1), **c):
    """every value of a family, enumerated by the specification and printed by the code; the specification judges the texts"""
    ops = [r["a"] for r in _records(ck, dict(RC, **c))]
    ops = [o[:3] + list(sizes) if o[0] == "print" else o for o in ops]
    validate_print(ck, [ops[i:i + 40] for i in range(0, len(ops), 40)], label)
def _records(ck, consts):
    recs = []; ck.model("JsonPrint", consts, action_constraint="EmitGraph", on_record=recs.append, view="view", invariants=RINV); return recs
def b8(v): return [(v >> 8 * i) & 255 for i in range(8)]
def dbl(x): return ["d", list(struct.pack("<d", x))]
def rdouble(r):
    x = r.random()
    if x < 0.25: return ["d", b8(r.getrandbits(64))]
    if x < 0.45: return dbl(r.choice([0.0, -0.0, 1.0, -1.5, 0.1, 1e-5, 1e-4, 123456.0, 1234567.0, 999999.5, 999999.4999, 9999995.0, 1e15, 1e16, 1e22, 1e100, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, float("inf"), -float("inf"), float("nan"), 0.5, 100000.5, 1000005.0, 1000015.0, 2.5, 1e6, 1e5]))
    if x < 0.7: return dbl(r.choice([-1, 1]) * r.randint(0, 10 ** r.randint(1, 17)) / 10 ** r.randint(0, 12))
    return dbl((r.randint(100000, 999999) * 10 + 5) * 10.0 ** r.randint(-30, 30))      # next to a tie at six digits
def rbs(r, utf=True):
    n = r.choice([0, 1, 1, 2, 3, 5, 10, 40])
    if not utf: return [r.randint(1, 255) for _ in range(n)]
    s = "".join(chr(r.choice([r.randint(1, 31), r.randint(32, 126), r.randint(32, 126), 34, 92, 47, 127, r.randint(0x80, 0x7ff), r.randint(0x800, 0xd7ff), r.randint(0xe000, 0xffff), r.randint(0x10000, 0x10ffff)])) for _ in range(n))
    return list(s.encode())
def rval(r, d=0, dbls=True, kinds="zzttffiiuusssnaao", utf=True):
    k = r.choice(kinds if d < 5 else kinds.replace("a", "").replace("o", "") or "z")
    if d == 0 and r.random() < 0.8: k = r.choice("ao")
    if k in "ztfx": return [k]
    if k == "i": return ["i", B(str(r.choice([0, 1, -1, 9, 10, r.randint(-2 ** 63, 2 ** 63 - 1), -2 ** 63, 2 ** 63 - 1, r.randint(-1000, 1000)])))]
    if k == "u": return ["u", B(str(r.choice([0, 1, 10, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, r.randint(0, 2 ** 64 - 1)])))]
    if k == "d": return rdouble(r)
    if k in "sn": return ["s" if k == "s" else "n8", rbs(r, utf)]
    if k == "b": return ["b", [r.randint(0, 255) for _ in range(r.choice([1, 2, 10, 100]))]]
    n = r.choice([0, 1, 1, 2, 3, 4, 9])
    if k == "a": return ["a", [rval(r, d + 1, dbls, kinds, utf) for _ in range(n)]]
    ks = []
    for _ in range(n):
        b = rbs(r, utf)
        if b not in ks: ks.append(b)
    return ["o", [[b, rval(r, d + 1, dbls, kinds, utf)] for b in ks]]
def rsizes(r): return r.choice([[], [0], [-1], [-1, -2], [-1, -2, -3, 0, 1], [r.randint(0, 60), r.randint(0, 300)], [-1, 5000]])
SQ = lambda s: '<<"s",%s>>' % tb(s)
def J05(ck):
    q = ck.quick; r = ck.rng
    lv = lambda *x: "{%s}" % ",".join(x)
    base = ['<<"z">>', '<<"i",<<55>>>>', '<<"s",<<97,34,10>>>>']
    printed(ck, "all values of depth 2", LEAVES=lv(*base[:2] if q else base), KEYS="{<<107>>,<<>>}", WIDTH=2, DEPTH=2, sizes=[])
    printed(ck, "all values of depth 1", LEAVES=lv('<<"z">>', '<<"t">>', '<<"f">>', '<<"i",<<48>>>>', '<<"i",%s>>' % tb(str(-2 ** 63)), '<<"u",%s>>' % tb(str(2 ** 64 - 1)), SQ(""), SQ("\x01\x1f/\\"), '<<"n8",<<98,34>>>>', '<<"d",%s>>' % tb(struct.pack("<d", 0.1))), KEYS="{<<107>>,<<>>,<<34,92>>}", WIDTH=2, DEPTH=1, sizes=[])
    if not q: printed(ck, "all values of depth 3", LEAVES=lv(base[0]), KEYS="{<<107>>}", WIDTH=2, DEPTH=3, sizes=[-1])
    hs = []
    for kinds, utf, n in (("zztffiiuussnaaoo", True, 120), ("ddddzisaao", True, 60), ("ddd", True, 30), ("zsnnbxaao", False, 40)):
        for _ in range(n if q else n * 25):
            hs.append([["print", f, v, *(rsizes(r) if r.random() < 0.3 else [])] for v in [rval(r, 0, True, kinds, utf) for _ in range(6)] for f in (0, 1)])
    for n in (1, 2, 3, 50, 255, 500, 509, 510, 511):
        for s in (0, 1, 2): hs.append([["pdeep", f, n, s] for f in ((0, 1) if n < 300 or not q else (0,))])
    hs += [[["print", f, ["a", [["i", B(str(k))] for k in range(n)]]], ["print", f, ["o", [[B("k%d" % (k * 7919 % 1009)), ["t"]] for k in range(n)]]]] for n in (10, 11, 21, 100, 300) for f in (0, 1)]
    validate_print(ck, hs, "printed values")
    # values built by parsing: print what was parsed (the text given is what JsonParse says it means)
def J06(ck):
    q = ck.quick; r = ck.rng
    al = list(range(0, 60))
    printed(ck, "all sizes of small values", LEAVES='{<<"t">>,<<"i",<<45,55>>>>,<<"s",<<97,34,10,1>>>>,<<"d",%s>>}' % tb(struct.pack("<d", -0.25)), KEYS="{<<107>>,<<>>}", WIDTH=2, DEPTH=1, sizes=al)
    hs = []
    for _ in range(100 if q else 2000):
        v = rval(r, 0, True, "zztffiiuussnddbxaaoo", r.random() < 0.8)
        hs.append([["print", f, v, -1, -2, -3, -4, 0, 1, 2, r.randint(0, 400), 4000] for f in (0, 1)])
    for n in (0, 1, 2, 100, 254, 255, 256, 400, 511):
        for s in (0, 1, 2): hs.append([["pdeep", f, n, s, -1, -2, -3, 0, 1, n, 2 * n, 3 * n] for f in ((0, 1) if n < 300 or not q else (0,))])
    for n in (0, 1, 30, 31, 32, 63, 64, 65, 100, 1000):      # long strings and keys, all control characters
        for b in ([97], [1], [34], [10, 97], [200, 128]): hs.append([["print", f, ["o", [[(b * n)[:n], ["s", (b * n)[:n]]]]], -1, -2, n, n + 1, n + 2] for f in (0, 1)])
    validate_print(ck, hs, "printed sizes")
def J12(ck):
    q = ck.quick; r = ck.rng
    ops = [x["a"] for x in _records(ck, dict(RC, TEXTS="UNION {[1..w -> {0,1,8,9,10,12,13,31,32,34,47,92,117,127,128,195,169,255}] : w \\in 0..%d}" % (2 if q else 3)))]
    ops += [x["a"] for x in _records(ck, dict(RC, TEXTS="{<<b>> : b \\in 0..255} \\cup {<<97,b,97>> : b \\in 0..255}"))]
    hs = [ops[i:i + 60] for i in range(0, len(ops), 60)]
    for _ in range(100 if q else 2000):
        hs.append([["escape", rbs(r, r.random() < 0.6)] for _ in range(8)] + [["escape", [r.randint(0, 255) for _ in range(r.choice([1, 10, 100, 600]))]]])
    validate_print(ck, hs, "escaped texts")

def halfway(r):
    """exact decimal expansions at and next to the middle between two doubles"""
    m = r.randint(2 ** 52, 2 ** 53 - 1); e = r.choice([r.randint(-60, 60), r.randint(-1074, 900), -1074])
    if e == -1074: m = r.choice([0, 1, 2, r.randint(0, 2 ** 52)])
    n = 2 * m + 1; e -= 1
    if e >= 0: return r.choice([str((n << e) + r.randint(-1, 1)) + ".0", str(n << e) + "e0"])
    v = n * 5 ** -e; s = str(v + r.choice([0, 0, 1, -1])).rjust(-e + 1, "0"); s = s[:e] + "." + s[e:]
    return s
def J04(ck):
    q = ck.quick
    cs = pflat(ck, T("0", "1", "9", "-", "+", ".", "e", "E"), 5 if q else 6, inv=True)
    cs += pflat(ck, T("0", "1", "-", ".", "e", "+", "x", " "), 5 if q else 6, FORCE="{0}", inv=False)
    cs += pflat(ck, T("0", "1", "-", ".", "E", ","), 5 if q else 6, WRAP='"array"', inv=False)
    cs += pflat(ck, T("922337203685477580", "7", "8", "9", "-", "0", "1844674407370955161", "5", "6", "1.0"), 3, inv=False)
    ck.replay("drv_json", cs, label="JsonParse numbers", leak=True)
    r = ck.rng; hs = []
    ints = [str(s * (b + d)) for b in (2 ** 31, 2 ** 32, 2 ** 53, 2 ** 63, 2 ** 64, 10 ** 18, 10 ** 19, 10 ** 20) for d in range(-3, 4) for s in (1, -1)] + ["9" * n for n in range(1, 40)] + ["-" + "9" * n for n in range(1, 40)] + ["1" + "0" * n for n in range(1, 60, 3)]
    dbl = ["1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "1.797693134862315807e308", "1e308", "1e309", "-1e309", "4.9e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "5e-324", "1e-323",
           "2.2250738585072014e-308", "2.2250738585072011e-308", "2.225073858507201e-308", "1e-400", "0.0", "-0.0", "-0", "0e5", "-0e-5", "0.1", "0.2", "0.3", "1e22", "1e23", "9007199254740993.0", "9007199254740992.5", "9007199254740991.5",
           "123456789012345678901234567890e-10", "1" + "0" * 330 + "e-330", "0." + "0" * 320 + "1e320", "1e0000000000000000000005", "1e-0000000000000000000005", "1e99999999999", "1e-99999999999", "0e99999999999", "0.5e1", "1E+2", "1.0000000000000000000000000000000000000001"]
    al = ints + dbl + [rnum(r) for _ in range(400 if q else 8000)] + [halfway(r) for _ in range(60 if q else 1500)]
    for i in range(0, len(al), 25): hs.append([["parse", 1, B(t), []] for t in al[i:i + 25]])
    validate(ck, hs, "numbers", parts=6)
    nums = [["i", B(t)] for t in ints if -2 ** 63 <= int(t) < 2 ** 63] + [["u", B(t)] for t in ints if 0 <= int(t) < 2 ** 64] + [["i", B(str(r.randint(-2 ** 63, 2 ** 63 - 1)))] for _ in range(60)]
    pr = [["print", r.randint(0, 1), v, 0] for v in nums]
    validate_print(ck, [pr[i:i + 30] for i in range(0, len(pr), 30)], "printed integers")

def J10(ck):
    q = ck.quick
    cs = pflat(ck, T("[", "]", "\n", "\r", '"a"', ",", "1", "x"), 6 if q else 7, PRUNE="TRUE", FORCE="{0,1}")
    cs += pflat(ck, T("{", "}", "\n", '"a"', ":", ",", "1", '"\n"', "tru"), 6 if q else 7, PRUNE="TRUE")
    ck.replay("drv_json", cs, label="JsonParse lines", leak=True)
    r = ck.rng; hs = []
    for _ in range(150 if q else 2500):
        h = []
        for _ in range(r.choice([5, 15, 40])):
            t = rtext(r)
            if r.random() < 0.5: i = r.randint(0, len(t)); t = t[:i] + r.choice(["\n", "\r\n", "\n\n\n", "\r"]) + t[i:]
            h.append(["parse", r.choice([0, 1]), B(t), B(r.choice(CONT))] if r.random() < 0.85 or not lbufable(t) else ["lbuf", B(t)])
        hs.append(h)
    for n in (510, 511, 512, 513): hs.append([["deep", 1, B("[\n" * n + "1" + "]\n" * n)], ["deep", 0, B('{"a":\r\n' * n)], ["deep", 1, B("[\n" * n)]])
    validate(ck, hs, "good and bad parses")

# ---- documents by reference
def haccept(e, g):
    """members of the same rank may stand in any order"""
    if e["r"] != g["r"] or len(e["o"]) != len(g["o"]): return False
    for x, y in zip(e["o"], g["o"]):
        if x[0] != "o": ok = x == y
        else:
            ok = y[0] == "o" and len(x[1]) == len(y[1])
            if ok:
                at = {tuple(k): (v, rk) for k, v, rk in x[1]}
                ok = len({tuple(k) for k, v in y[1]}) == len(y[1]) and all(at.get(tuple(k)) == (v, m[2]) for (k, v), m in zip(y[1], x[1]))
        if not ok: return False
    return True
HC = dict(NOBJ=3, WIDTH=2, KEYS=T("a", "b"), TEXTS=T("1"), INTS="{1}", KINDS='{"o","a"}', OPS='{}', SIM="FALSE", DEPTH=0)
def hset(xs): return "{" + ",".join('"%s"' % x for x in xs.split()) + "}"
def hgraph(ck, OPS, KINDS, **c):
    recs = []
    ck.model("JsonHeap", dict(HC, OPS=hset(OPS), KINDS=hset(KINDS), **c), view="view", action_constraint="EmitGraph", on_record=recs.append, workers=1,
             invariants=["Acyclic", "Whole", "UniqueKeys", "Ranked"], properties=["MergeLaw", "FailLaw", "FrameLaw"])
    ck.replay("drv_json", graph_cases(recs), label="JsonHeap graph", leak=True, accept=haccept)
HKEYS = T("a", "b", "k", "", "error", 'q"\\', "\xc3\xa9")
HTEXTS = T("1", "-7", "007", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "99999999999999999999999", "0", "-0", "1x", "x", "", "-", "1 ", "1.0", "ab")
def hsim(ck, num, depth, OPS, procs=6, **c):
    recs = []
    kw = dict(HC, NOBJ=14, WIDTH=9, KEYS=HKEYS, TEXTS=HTEXTS, INTS="{0,1,-1,7,-12345,2147483647}", SIM="TRUE", DEPTH=depth, OPS=hset(OPS))
    kw.update(c)
    def one(k):
        ck.model("JsonHeap", kw, action_constraint="EmitSim", on_record=recs.append, simulate=num // procs, depth=depth, seed=ck.seed * 100 + k, workers=1,
                 invariants=["Acyclic", "Whole", "UniqueKeys", "Ranked"], properties=["MergeLaw", "FailLaw"])
    with cf.ThreadPoolExecutor(procs) as ex: list(ex.map(one, range(procs)))
    ck.replay("drv_json", graph_cases(recs), label="JsonHeap simulation", leak=True, accept=haccept)
HASSUME = ["values are not put into themselves; a deleted value is in no container and no root; nothing is deleted by hand after a collection (the counts of survivors are unspecified then)",
           "array insertion indexes 0..length; strings to convert without leading blanks or plus sign", "the order of members one merge adds to an object is unspecified"]
def large(r, n, merge=False):
    """a document with n members and n elements"""
    k = lambda i: B("k%d" % i)
    h = [["mk", "o", 0], ["mk", "a", r.choice([0, 1, 10])], ["setbn", 1, 0, n], ["aappn", 2, n, r.randrange(5)], ["mk", "i", 7], ["set", 1, k(n // 2), 3], ["set", 1, B("new"), 2],
         ["ains", 2, n // 3, 3], ["ains", 2, 0, -3], ["aget", 2, n // 3 + 1], ["aget", 2, n + 1], ["aget", 2, n + 2], ["aget", 2, n + 100], ["arem", 2, n + 7], ["arem", 2, n // 2], ["arem", 2, 0],
         ["get", 1, k(n)], ["get", 1, k(n + 1)], ["ren", 1, k(n // 3), k(n + 5)], ["ren", 1, k(n + 50), k(1)], ["remn", 1, 0, 2, n // 3], ["get", 1, k(2)], ["setbn", 1, n // 2, n], ["rem", 1, k(n - 1)], ["get", 1, k(n // 2)],
         ["app", 1, B("new"), 3], ["acat", 2, 2] if n < 600 else ["aappn", 2, 3, 1], ["show", 1]]
    if merge:
        h = h[:8] + [["mk", "o", 0], ["mk", "a", 1], ["setbn", 4, n // 2, n], ["aappn", 5, n, 2], ["set", 4, B("new"), 5], ["set", 4, k(3), 5], ["merge", 1, 4], ["get", 1, k(n + n // 2)], ["aget", 2, 2 * n], ["merge", 2, 5], ["show", 2], ["mor", 0, 1], ["merge", 1, 5], ["get", 4, k(n)]]
    return h
def larges(ck, merge=False):
    q = ck.quick; hs = [large(ck.rng, n, merge) for n in ([30, 129, 257, 513] if q else [30, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 800, 1025])]
    ck.validate("JsonHeap", "drv_json", hs, dict(HC, OPS="{}", KINDS="{}"), label="large documents", leak=True)
def J07(ck):
    q = ck.quick; ck.assume = HASSUME
    larges(ck)
    K1 = T("a")
    hgraph(ck, "set ren del", "o a", NOBJ=2)
    hgraph(ck, "set", "o a", WIDTH=1, KEYS=K1)
    hgraph(ck, "arr del", "a")
    hgraph(ck, "conv ren del", "o", WIDTH=1, TEXTS=T("1", "x"))
    hgraph(ck, "conv", "o")
    hgraph(ck, "err set", "o s", KEYS=K1)
    hsim(ck, 360 if q else 9000, 40, "conv del", NOBJ=16)
    hsim(ck, 240 if q else 6000, 60, "del", NOBJ=24, WIDTH=24)
    hsim(ck, 180 if q else 4000, 40, "gc merge", NOBJ=16)
    if not q:
        hgraph(ck, "set ren", "o a", NOBJ=3, WIDTH=1)
        hgraph(ck, "set", "o a s", NOBJ=3, KEYS=K1)
        hgraph(ck, "set arr", "o a", NOBJ=3, KEYS=K1, WIDTH=1)
def J08(ck):
    q = ck.quick; ck.assume = HASSUME + ["each container met by a merge as a destination is met once, and is no part of the source"]
    larges(ck, True)
    K1 = T("a")
    hgraph(ck, "merge", "o kv")
    hgraph(ck, "merge", "a kv", KEYS=K1, NOBJ=4, WIDTH=1)
    hgraph(ck, "merge arr", "a", NOBJ=3)
    hsim(ck, 360 if q else 9000, 40, "merge", NOBJ=16)
    hsim(ck, 240 if q else 6000, 60, "merge", NOBJ=20, WIDTH=12, KEYS=T("a", "b", "c"))
    hsim(ck, 180 if q else 4000, 50, "merge del", NOBJ=16, KEYS=T("a", "b"))
    if not q:
        hgraph(ck, "merge set", "o", NOBJ=3, WIDTH=2)
        hgraph(ck, "merge", "a o kv", NOBJ=4, WIDTH=2, KEYS=K1)

# ---- selecting
def tv(v):
    """a value in the notation of the specifications"""
    if v[0] == "a": return '<<"a",<<%s>>>>' % ",".join(tv(x) for x in v[1])
    if v[0] == "o": return '<<"o",<<%s>>>>' % ",".join("<<%s,%s>>" % (tb(bytes(k)), tv(x)) for k, x in v[1])
    return '<<"%s"%s>>' % (v[0], "," + tb(bytes(v[1])) if len(v) > 1 else "")
def J(x):
    if x is None: return ["z"]
    if x is True: return ["t"]
    if x is False: return ["f"]
    if isinstance(x, int): return ["i", B(str(x))]
    if isinstance(x, float): return dbl(x)
    if isinstance(x, str): return ["s", list(x.encode())]
    if isinstance(x, list): return ["a", [J(y) for y in x]]
    return ["o", [[list(k.encode()), J(y)] for k, y in x.items()]]
def stok(s, *args): return "<<%s,<<%s>>>>" % (tb(s), ",".join('"i",%d' % a if isinstance(a, int) else '"s",%s' % tb(a) for a in args))
def rselector(r, v):
    """a selector along a path of v, perhaps spoilt"""
    steps = []; spoil = r.random() < 0.45; cur = v
    for _ in range(r.choice([0, 1, 1, 2, 2, 3, 5])):
        x = r.random()
        if cur[0] == "o" and cur[1]:
            k, nxt = r.choice(cur[1]); k = bytes(k)
            if spoil and x < 0.2: k = r.choice([b"zz", b"", k + b"x", k[:-1], k[:1]])
            star = any(c in b".[]:*" for c in k) or k == b"" or 0 in k or x > 0.6
            if star:
                cut = r.randint(0, len(k)) if r.random() < 0.3 else 0
                pre = k[:cut]
                if any(c in b".[]:*" for c in pre): pre, cut = b"", 0
                steps.append((b"." + pre + b"*", [["s", list(k[cut:])]]))
            else: steps.append((b"." + k, []))
            cur = nxt
        elif cur[0] == "a" and cur[1]:
            i = r.randrange(len(cur[1])); n = i
            if spoil and x < 0.2: n = r.choice([-1, len(cur[1]), len(cur[1]) + 5, 2 ** 31 - 1, -2 ** 31])
            t = str(n).encode() if n != 2 ** 31 - 1 or x < 0.1 else b"18446744073709551616"
            if x > 0.6: steps.append((b"[*" + r.choice([b"]", b"]", b""]), [["i", n]]))
            elif x > 0.5 and n > 9: steps.append((b"[" + t[:1] + b"*]", [["i", int(t[1:])]]) if t[1:2] != b"0" else (b"[" + t + b"]", []))
            else: steps.append((b"[" + t + r.choice([b"]", b"]", b""]), []))
            cur = cur[1][i]
        else: break
        if r.random() < 0.2: steps.append((b":" + ({"s": b"s", "i": b"n", "u": b"n", "d": b"n", "o": b"o", "a": b"a", "t": b"b", "f": b"b", "z": b"!"}[cur[0]] if r.random() < 0.8 else r.choice([b"s", b"n", b"o", b"a", b"b", b"!", b"x", b"S"])), []))
    if spoil and r.random() < 0.7:
        i = r.randint(0, len(steps))
        steps.insert(i, r.choice([(b".", []), (b"[", []), (b"[]", []), (b":", []), (b".nope", []), (b"[0]", []), (b"[x]", []), (b"[1x]", []), (b":o", []), (b":s", []), (b"[*]", [["i", r.choice([0, -1, 1])]]), (b".*", [["s", []]]), (b"[0]x", []), (b"[0]]", []), (b"[-1]", [])]))
    t = b"".join(x for x, _ in steps); g = [y for _, a in steps for y in a]
    if spoil and r.random() < 0.1: t = r.choice([b"x", b"a.", b"0", b"x[0]"]) + t
    return t, [z for y in g[:6] for z in y], len(g) <= 6
SC = {"DOCS": "{}", "TOKS": "{}", "MAXTOK": 0, "KEYS": "{}"}
def keys_of(v): return [k for k, x in v[1]] + [z for k, x in v[1] for z in keys_of(x)] if v[0] == "o" else [z for x in v[1] for z in keys_of(x)] if v[0] == "a" else []
def rename_keys(r, v):
    if v[0] == "a": return ["a", [rename_keys(r, x) for x in v[1]]]
    if v[0] != "o": return v
    out = []; seen = set()
    for k, x in v[1]:
        if r.random() < 0.7: k = list(r.choice([b"a", b"b", b"ab", b"c.d", b"x[0]", b"*", b"a:s", b"", b"name", b"0"]))
        if r.random() < 0.02: k = [97 + r.randint(0, 1)] * r.choice([255, 256, 257, 300])
        if tuple(k) in seen: continue
        seen.add(tuple(k)); out.append([k, rename_keys(r, x)])
    return ["o", out]
def J09(ck):
    q = ck.quick; r = ck.rng
    docs = [J({"a": [1, "x", {"b": True}], "b": {"a": None, "": False}, "ab": -7}), J([[], [0, [1.5, None]], {"a": {"a": {"a": "s"}}}]), J(5)]
    toks = [stok(".a"), stok(".b"), stok("."), stok("a"), stok("[0]"), stok("[1"), stok("[2]"), stok("["), stok("[]"), stok("0"), stok("x"), stok(":"), stok(":*"), stok("[*]", 2), stok("[*]", -1), stok("[*", 0), stok(".*", "b"), stok(".*", ""), stok(".*b", "a"),
            stok("[-1]"), stok("[0]]")] + [stok(":" + c) for c in "snoab!xS"]
    recs = []
    ck.model("JsonSelect", dict(SC, DOCS="{%s}" % ",".join(tv(d) for d in docs), TOKS="{%s}" % ",".join(toks), MAXTOK=3 if q else 4, KEYS=T("a", "b", "", "ab", "x", "A")), view="view", action_constraint="EmitGraph", on_record=recs.append,
             invariants=["InLaw", "AllNamed"], workers=4)
    ck.replay("drv_json", graph_cases([x for x in recs if x["a"][0] == "sel"]), label="JsonSelect selectors", leak=True)
    hs = [[x["a"] for x in recs if x["a"][0] == "has"]]
    for _ in range(250 if q else 5000):
        v = rename_keys(r, rval(r, 0, False, "zztffiiusaaaooo", True)); h = []
        if r.random() < 0.1: v = J({"k": {}, "l": [v], "n": 12345})
        for _ in range(12):
            t, g, ok = rselector(r, v)
            if ok: h.append(["sel", v, list(t)] + g)
            if not g and 42 not in t and r.random() < 0.3: h.append(["selint", v, list(t)])
        ks = keys_of(v)
        for _ in range(4): h.append(["has", v, [c for c in (r.choice(ks) if ks and r.random() < 0.7 else list(r.choice([b"a", b"b", b"zz", b"", b"name"]))) if c]])
        hs.append(h)
    for n in (1, 63, 64, 254, 255, 256, 257, 300, 600):          # names about as long as the limit
        v = J({"x" * n: [1], "x" * (n - 1): "s", "y": {"x" * n: 2}})
        k = list(b"x" * n); h = n // 2
        hs.append([["sel", v, B(".") + k], ["sel", v, B(".*"), "s", k], ["sel", v, B(".") + k[:h] + B("*"), "s", k[h:]], ["sel", v, B(".") + k + B("[0]:n")], ["sel", v, B(".y.") + k], ["sel", v, B(".") + k + B("x")],
                   ["sel", v, B(".*:s"), "s", k[1:]], ["sel", v, B(".y.*") + k[h:], "s", k[:h]], ["has", v, k], ["has", v, k + B("x")], ["sel", v, B("[") + B("1" * n) + B("]")], ["sel", v, B(".y[") + B("1" * n)]])
    ck.validate("JsonSelect", "drv_json", hs, SC, label="random selectors", leak=True)

# ---- files
FC = {"NAMES": "{}", "CONTENTS": "{}", "VALUES": "{}", "INPUTS": 0}
FN = [B(x) for x in ("f_a", "f_b", "f_c", "f_d e", "f_" + "n" * 40)]
def nodbl(t): return not re.search(r"\d[.eE]|\d{19}", t)
def file_history(r, n):
    h = []; have = {}; names = r.sample(FN, r.choice([2, 3, 5]))          # have: False (unspecified) or True
    V = lambda: rval(r, 0, False, "zztffiiusnaaooo", True)
    for _ in range(n):
        x = r.random(); f = r.choice(names); k = tuple(f); ok = [g for g in names if have.get(tuple(g), True)]
        if x < 0.2: h.append(["save", f, V(), r.randint(0, 1), r.randint(0, 1), r.choice([0, 0, 1, 3, 100]), -1]); have[k] = True
        elif x < 0.25:
            v = V(); h.append(["save", f, v, r.randint(0, 1), r.randint(0, 1), r.choice([0, 0, 1, 3]), r.choice([0, 1, 2, 5, 20, 60, 300])]); have[k] = h[-1][3] == 0
        elif x < 0.3: h.append(["dprintf", f, V() if r.random() < 0.8 else ["N"], r.choice([[], [], B("x: "), B("%d %s ")])]); have[k] = True
        elif x < 0.48:
            t = r.choice([rtext(r), rws(r) + '{"a":%s,"b":%s}' % (rdoc(r, 3), rdoc(r, 3)), '{"a":{"k":[1],"l":%s},"b":[2],"c":"x"}' % rdoc(r, 4), '{"originals":1,"b":[3,{}],"a":{"k":[true]}}', "[1,2]", "{}", ""])
            if not okay(t) or not nodbl(t): t = "{}\n"
            h.append(["put", f, B(t)]); have[k] = True
        elif x < 0.52: h.append(["gone", f]); have[k] = None
        elif x < 0.75:
            if f in ok:
                via = r.choice([0, 1, 2, 10, 11, 12]) if have.get(k) else r.choice([0, 10])
                h.append(["load", f, r.randint(0, 1), via, r.choice([0, 0, 1, 2, 7])])
        else:
            ins = [r.choice(ok) for _ in range(r.choice([1, 2, 2, 3, 5]))] if ok else []
            if r.random() < 0.1: ins.append(B("f_missing"))
            good = all(have.get(tuple(g)) for g in ins)
            if ins and r.random() < 0.9:
                out = r.choice(names + [B("no/x")]) if r.random() < 0.3 else f
                h.append(["mergeall", out, *ins])      # whether it succeeds is the specification's business; the file stays specified
                if out != B("no/x") and have.get(tuple(out)) is not True: h.append(["put", out, B('{"a":[0]}')]); have[tuple(out)] = True
            elif ins: h.append(["mergelim", f, r.choice([0, 3, 50, 1000, 100000]), *ins]); h.append(["put", f, B('{"b":{"a":1}}')]); have[k] = True
    return h
def J11(ck):
    q = ck.quick; r = ck.rng
    recs = []
    cont = ['{"a":1,"b":[1]}', '{"b":[2],"o":{"x":1}}', ' {"o":{"x":[],"y":2},"a":"s"}\n', "[3]", "{}x", '{"originals":{},"b":{}}']
    ck.model("JsonFile", dict(FC, NAMES=T("f_a", "f_b", "f_c") if not q else T("f_a", "f_b"), CONTENTS=T(*(cont if q else cont[:4] + cont[5:])), VALUES='{%s}' % ",".join(tv(J(x)) for x in ({"a": [1, None, "x\n"]}, [], "", {"k": {"l": -5}})), INPUTS=2 if q else 3),
             view="view", action_constraint="EmitGraph", on_record=recs.append, workers=1, invariants=["SaveLaw"], properties=["FrameLaw", "MergeLaw"])
    hs = [c.ops for c in graph_cases(recs)]
    if len(hs) > 60000: hs = r.sample(hs, 60000)
    ck.validate("JsonFile", "drv_json", hs, FC, label="JsonFile graph", leak=True)
    hs = [file_history(r, r.choice([10, 30])) for _ in range(250 if q else 5000)]
    for n in (10, 4095, 4096, 4097, 70000):        # sizes around those of buffers and pages
        for how in (0, 1):
            hs.append([["save", FN[0], ["a", [["s", [120] * (n - 4 if n < 5000 else 1000)]] * (1 if n < 5000 else n // 1000)], f, how, c, -1] for f in (0, 1) for c in (0, 1000)] + [["load", FN[0], 1, how, 0], ["load", FN[0], 0, 2, 1000]])
    ck.validate("JsonFile", "drv_json", hs, FC, label="file histories", leak=True, parts=6)

CHECKS = {"J01": J01, "J02": J02, "J03": J03, "J04": J04, "J05": J05, "J06": J06, "J12": J12, "J10": J10, "J07": J07, "J08": J08, "J09": J09, "J11": J11}

"""The SQL layer."""
import json, struct
from engine import graph_cases
from cont import emit

def B(s): return list(s.encode("latin-1") if isinstance(s, str) else s)
def tla(x):
    if isinstance(x, (list, tuple)): return "<<" + ",".join(tla(y) for y in x) + ">>"
    return '"%s"' % x if isinstance(x, str) else str(x)
def ops(l): return "{" + ",".join(tla(o) for o in l) + "}"
Z = ["z"]
def i(n): return ["i", B(str(n))]
def s(t): return ["s", B(t)]
def b(t): return ["b", B(t)]
def d(x): return ["d", list(struct.pack("<d", x))]
def p(n): return ["p", B("@" + n)]
def v(x): return ["v", x]
def sel(items, where=(), desc=0): return ["sel", [x if isinstance(x, list) else ["c", B(x), []] for x in items], [[B(c), e] for c, e in where], desc]
def ov(alias="ov"): return ["ov", B("b"), B(alias)]
def ins(style=0, **kv): return ["ins", style, [B(k) for k in kv], list(kv.values())]
def upd(sets, where=()): return ["upd", [[B(c), e] for c, e in sets], [[B(c), e] for c, e in where]]
def dele(where=()): return ["del", [[B(c), e] for c, e in where]]
def bad(n): return ["bad", n]
ABSENT = ["-"]; NOTHING = ["none"]; NEW = ["new"]; NO = ["no"]
def field(name, typ="i64", default=ABSENT, nu=0, nn=0, nr=0, nl=0, col=None): return [B("@" + name), B(col or name), typ, default, [nu, nn, nr, nl]]
def info(*fs): return ["f", list(fs)]
def data(*ds): return ["d", list(ds)]
def obj(**kv): return ["o", [[B(k), x] for k, x in kv.items()]]
ALL = ["id", "a", "b", "c", "d"]
C0 = {"OPS": "{}", "MAXROWS": 0, "IDS": "{}"}
INV = dict(invariants=["TypeOK"], properties=["FailLaw", "ReadLaw", "UpsertLaw", "CountLaw"])

def graph(ck, l, rows, label, cap=40000, ids=(0, 1, 2, 3, 4, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 5), **kw):
    hs = [c.ops for c in emit(ck, "SqlSpec", {"OPS": ops(l), "MAXROWS": rows, "IDS": ops([B(str(x)) for x in ids])}, workers=4, **INV, **kw)]
    if len(hs) > cap: hs = ck.rng.sample(hs, cap)
    ck.validate("SqlSpec", "drv_sql", hs, C0, label=label, leak=True, parts=6)

# ---- random histories: only inputs; what they mean is the specification's business
TEXTS = ["x", "y", "", "it's", "%d %s", "\xc3\xa9", "a\nb", "x y", "z" * 70, "Q"]
BLOBS = ["", "\0", "x", "\xff\0\x01", "it's"]
DBL = [0.5, -2.25, 1e300, 3.0e-5, 1234567.125]
def ival(r): return r.choice([0, 1, 2, 3, 5, 5, -1, 7, 100, 2 ** 31 - 1, -2 ** 31, 2 ** 31, -2 ** 31 - 1, 2 ** 40 + 1, 2 ** 63 - 1, -2 ** 63])
def small(r): return r.choice([0, 1, 2, 3, 4, 5, 9])
def vint(r, col, typ):
    if col == "id": return i(r.choice([1, 2, 3, 4, 8] if typ == "int" or r.random() < 0.9 else [2 ** 31, 2 ** 40 + 7, 2 ** 61]))
    n = small(r) if r.random() < 0.7 else ival(r)
    return i(n) if typ != "int" or -2 ** 31 <= n < 2 ** 31 else i(7)
def vtyped(r, col, typ):
    if typ in ("int", "i64"): return vint(r, col, typ)
    return s(r.choice(TEXTS[:3] if r.random() < 0.6 else TEXTS)) if typ == "text" else b(r.choice(BLOBS))
class Gen:
    def __init__(self, r, dbl=None, uniq=False):
        self.r = r; self.uniq = uniq            # uniq: the statements are composed from the fields, each column once
        self.dbl = r.random() < 0.4 if dbl is None else dbl
        self.fs = []; self.renew()
    def lit(self, col):
        r = self.r; x = r.random()
        if x < 0.1: return Z
        if col == "id": return vint(r, "id", "i64") if x < 0.95 else s("x")
        if x < 0.6: return i(small(r)) if r.random() < 0.8 else i(ival(r))
        if x < 0.85: return s(r.choice(TEXTS[:3] if r.random() < 0.6 else TEXTS))
        if x < 0.93 or not self.dbl: return b(r.choice(BLOBS))
        return d(r.choice(DBL))
    def renew(self):
        r = self.r; fs = []
        for c in r.sample(ALL, r.randint(2, 5)):
            typ = r.choice(["int", "i64"] if c == "id" else ["int", "i64", "i64", "text", "text", "blob"])
            if c == "d" and self.r.random() < 0.2: typ = "blob"
            fs.append(self.fld(c, c, typ))
        if r.random() < 0.3: fs.append(self.fld("n1", r.choice([c for c in ["a", "b", "nope"] if not self.uniq or B(c) not in [f[1] for f in fs]]), r.choice(["int", "i64", "text"])))
        r.shuffle(fs); self.fs = fs
    def fld(self, name, col, typ):
        r = self.r
        return [B("@" + name), B(col), typ, self.dat(col, typ, 0.25), [int(r.random() < q) for q in (0.2, 0.3, 0.15, 0.2)]]
    def dat(self, col, typ, have, null=0.15):
        r = self.r
        if r.random() > have: return ABSENT
        return ["n" if r.random() < null else "v", vtyped(r, col, typ)]
    def cname(self, f): return bytes(f[1]).decode()
    def data(self, have=0.7, null=0.15): return ["d", [self.dat(self.cname(f), f[2], have, null) for f in self.fs]]
    def e(self, col):
        """an expression for column col"""
        r = self.r
        if r.random() < 0.65:
            c = [f for f in self.fs if self.cname(f) == col]
            if col != "id" and r.random() < 0.25: c = self.fs
            if c: return ["p", r.choice(c)[0]]
        if r.random() < 0.02: return p("zz")
        return v(self.lit(col))
    def where(self, n=None):
        r = self.r
        return [[B(c), self.e(c)] for c in r.sample(["id", "a", "a", "b", "c", "d"], r.choice([0, 1, 1, 1, 2]) if n is None else n)]
    def items(self):
        r = self.r; l = []
        for _ in range(r.choice([1, 1, 2, 3, 5])):
            x = r.random()
            if x < 0.75: l.append(["c", B(r.choice(ALL + ([] if r.random() < 0.97 else ["nope"]))), B(r.choice(["", "", "", "k", "x y", "a"]))])
            elif x < 0.85: l.append(ov(r.choice(["ov", "b"])))
            elif x < 0.93: l.append(["v", self.lit("d"), B(r.choice(["k", "d"]))])
            elif self.fs: l.append(["p", r.choice(self.fs)[0], B(r.choice(["k", "p", "b"]))])
            else: l.append(["c", B("id"), []])
        return l
    def select(self, full=0.3):
        r = self.r
        if r.random() < 0.03: return bad(r.choice([1, 2, 6, 9, 10, 12]))
        return ["sel", [["c", B(c), []] for c in ALL] if r.random() < full else self.items(), self.where(), r.randint(0, 1)]
    def insert(self):
        r = self.r
        if r.random() < 0.03: return bad(r.choice([3, 7, 8, 10]))
        cs = [c for c in ALL if r.random() < (0.35 if c == "id" else 0.95 if c == "c" else 0.7)] or ["a"]
        r.shuffle(cs)
        return ["ins", r.choice([0, 0, 1, 2]), [B(c) for c in cs], [self.e(c) for c in cs]]
    def update(self):
        r = self.r
        if r.random() < 0.03: return bad(r.choice([4, 11]))
        cs = r.sample(["a", "b", "b", "c", "d", "id"], r.choice([1, 1, 2, 3])); cs = list(dict.fromkeys(cs))
        return ["upd", [[B(c), self.e(c)] for c in cs], self.where()]
    def delete(self):
        return bad(5) if self.r.random() < 0.03 else ["del", self.where(self.r.choice([0, 1, 1, 1, 1, 1, 2]))]
    def fi(self): return ["f", self.fs] if self.fs and self.r.random() < 0.93 else NOTHING
    def fd(self, f): return NOTHING if f == NOTHING or self.r.random() < 0.1 else self.data()
    def scalar(self): return self.r.choice([Z, i(small(self.r)), s(self.r.choice(TEXTS)), ["t"], ["f"]])
    def status(self, must=False):
        r = self.r; x = r.random()
        if x < 0.5: return NEW
        if x < 0.65 and not must: return NO
        ks = r.sample(["a", "b", "k", "deleted", "updated_rows", "last_insert_rowid", "x", "warning"], r.choice([0, 1, 2, 3]))
        return v(["o", [[B(k), self.scalar() if r.random() < 0.7 else ["a", [self.scalar()]] if r.random() < 0.5 else obj(a=i(1), q=s("x"))] for k in ks]])
    def astatus(self):
        x = self.r.random()
        return NEW if x < 0.55 else NO if x < 0.65 else v(["a", [self.scalar() for _ in range(self.r.choice([0, 1, 3]))]])
    def call(self, kind):
        r = self.r; f = self.fi(); x = self.fd(f)
        if kind == "run": return ["run", r.choice([self.select, self.insert, self.update, self.delete])(), f, x, self.status()]
        if kind == "insert": return ["insert", self.insert(), f, x, self.status(), B(r.choice(["", "", "k", "a"])), r.randint(0, 1)]
        if kind == "delete": return ["delete", self.delete(), f, x, self.status(), B(r.choice(["", "", "k"]))]
        if kind in ("select", "select1"): return [kind, self.select(), f, x, self.astatus() if kind == "select" else self.status()]
        if kind in ("selas", "sel1as"): return [kind, self.select(), f, x, self.status(), B(r.choice(["k", "a", "new"]))]
        if kind == "iter": return ["iter", self.select(), f, x, self.astatus(), r.choice([0, 0, 1, 2, 3])]
        u = self.update() if r.random() < 0.9 else []
        return [kind, [self.select(), self.insert(), u], f, x, self.status(u == [])]
    def json(self, plain=False):
        r = self.r; ks = []
        cs = [self.cname(f) for f in self.fs] if self.fs and not plain else ALL
        for c in dict.fromkeys(r.sample(cs, r.randint(0, len(cs))) + r.sample(["zz", "yy", "a", "c"], r.choice([0, 0, 1, 2]))):
            ty = [f[2] for f in self.fs if self.cname(f) == c][:1]
            if plain or not ty or r.random() < 0.08:
                x = i(small(r)) if r.random() < 0.5 else s(r.choice(TEXTS)) if r.random() < 0.7 else Z
                if plain and c == "id": x = vint(r, "id", "i64")
                elif not plain and r.random() < 0.3 and (c != "id"): x = r.choice([["t"], ["a", []], obj(a=i(1)), i(ival(r))])
            elif r.random() < 0.15: x = Z
            else: x = vtyped(r, c, "text" if ty[0] == "blob" else ty[0])
            ks.append([B(c), x])
        return ["o", ks]
    def cfg(self, kind):
        r = self.r; own = r.random() < 0.15
        f = NOTHING if own else ["f", self.fs]
        given = [] if own else [self.dat(self.cname(x), x[2], 0.15) for x in self.fs] if r.random() < 0.4 else [ABSENT] * len(self.fs)
        save = self.fs
        if own: self.fs = [field(c) for c in ("a", "b", "c")]
        c = [f, given, self.select(0.5), [] if r.random() < 0.6 else self.insert(), [] if r.random() < 0.6 else self.update(), NOTHING if r.random() < 0.3 else ["w", self.where(r.choice([0, 1, 1, 2]))]]
        self.fs = save
        return c
    def op(self, cfg):
        r = self.r; kind = r.choice(["ins", "ins", "upsert", "upsert", "upd", "updif", "sel", "sel1ins"]); own = cfg[0] == NOTHING
        st = self.astatus() if kind == "sel" else self.status(cfg[4] == [])
        if kind == "ins" and st[0] == "v": st = v(["o", [m for m in st[1][1] if m[0] != B("last_insert_rowid")]])      # renamed to "id"
        return ["op", cfg, kind, self.json(own), st]
    def bind(self): return ["bind", self.fs, self.data(0.3)[1], self.json()]
    def join(self):
        r = self.r
        fs = []
        for c in r.sample(ALL, r.choice([1, 1, 2])):
            typ = r.choice(["int", "i64", "text"] if c != "id" else ["int", "i64"])
            have = r.random()
            fs.append([B("@" + c), B(r.choice([c, c, c, "k"])), typ, ["v", vtyped(r, c, typ)] if have < 0.45 else ["n", vtyped(r, c, typ)] if have < 0.5 else ABSENT, [0, int(r.random() < 0.2), int(r.random() < 0.1), int(r.random() < 0.2)]])
        x = NOTHING if r.random() < 0.3 else ["d", [["v" if r.random() < 0.9 else "n", vtyped(r, "b", f[2])] if r.random() < 0.7 else ABSENT for f in fs]]
        def el():
            m = []
            for k in r.sample(["id", "a", "b", "c", "d", "k", "zz"], r.choice([1, 3, 5, 7])):
                ty = [f[2] for f in fs if self.cname(f) == k][:1]
                m.append([B(k), vtyped(r, k, ty[0]) if ty and r.random() < 0.93 else self.scalar()])
            for f in fs:
                if f[1] not in [y[0] for y in m] and r.random() < 0.9: m.append([f[1], vtyped(r, self.cname(f), f[2])])
            return ["o", m]
        j = el() if r.random() < 0.3 else ["a", [el() for _ in range(r.choice([0, 1, 2, 4]))]]
        keep = self.fs; self.fs = fs
        q = ["sel", [["c", B(c), []] for c in ALL] if r.random() < 0.3 else self.items(), [[f[1] if self.cname(f) in ALL else B(r.choice(ALL[1:])), ["p", f[0]]] for f in fs if r.random() < 0.9], r.randint(0, 1)] if r.random() < 0.95 else self.select()
        self.fs = keep
        return ["join", j, ["f", fs], x, q, B(r.choice(["", "", "rows", "a"]))]
    def next(self):
        r = self.r
        return ["next", B(r.choice(["id", "id", "id", "a", "b", "nope"] if not self.dbl else ["id"])), [[B(c), v(self.lit(c))] for c in r.sample(["a", "b", "id", "c"], r.choice([0, 0, 1, 2]))]]
    def bulk(self):
        r = self.r; l = []
        for _ in range(r.choice([1, 2, 5])):
            m = self.json(True)[1]
            if not any(k == B("c") for k, _ in m) and r.random() < 0.8: m.append([B("c"), i(small(r))])
            l.append(["o", [x for x in m if x[0] not in (B("zz"), B("yy")) or r.random() < 0.05]])
        return ["bulk", l]
def history(r, n, mix, faults=0.0):
    g = Gen(r, uniq="op" in mix); h = []; cfgs = []
    kinds = [k for k, w in mix.items() for _ in range(w)]
    for k in range(n):
        if r.random() < 0.08: g.renew(); cfgs = []
        if r.random() < faults: h.append(["mode", r.choice(["ok", "ok", "ro", "int"])])
        k = r.choice(kinds)
        if k == "op":
            if len(cfgs) < 2: cfgs.append(g.cfg(k))
            h.append(g.op(r.choice(cfgs)))
        elif k in ("bind", "join", "next", "bulk"): h.append(getattr(g, k)())
        else: h.append(g.call(k))
    return h
def random(ck, mix, n, label, faults=0.0, lens=(10, 30, 60)):
    hs = [history(ck.rng, ck.rng.choice(lens), mix, faults) for _ in range(n)]
    ck.validate("SqlSpec", "drv_sql", hs, C0, label=label, leak=True, parts=6)

def Q01(ck):
    q = ck.quick
    F = info(field("a"), field("b", nr=1), field("c", "text"), field("d", nl=1), field("id", nl=1, nr=1))
    l = [["insert", x, NOTHING, NOTHING, NEW, [], 1] for x in (ins(a=v(i(2 ** 63 - 1)), b=v(s("it's")), c=v(b("\0\xff")), d=v(d(0.5))), ins(a=v(Z), b=v(i(5)), c=v(s(""))), ins(1, id=v(i(2 ** 31)), a=v(s("\xc3\xa9")), c=v(b("")), d=v(i(-7))))]
    if not q: l += [["insert", ins(id=v(i(3)), a=v(i(-1)), b=v(d(-2.25)), c=v(i(0)), d=v(Z)), NOTHING, NOTHING, NO, B("k"), 1]]
    sels = [sel(ALL), sel(ALL, desc=1), sel(["d"]), sel(["b"]), sel(["id"], desc=1), sel(["a", "b"]), sel(["c", ["c", B("c"), B("d")]]), sel(["c"], [("a", v(Z))]), sel([["v", s("x"), B("d")]], [("b", v(i(5)))]), sel(["c", ["c", B("a"), B("c")]]), sel([ov("b"), "id"])]
    for x in sels:
        for f in (NOTHING, F):
            l += [["select", x, f, NOTHING, st] for st in (NEW, NO, v(["a", [i(1), Z]]), v(["a", []]))]
            l += [["select1", x, f, NOTHING, st] for st in (NEW, NO, v(obj(a=s("old"), z=i(1))))]
            l += [[k, x, f, NOTHING, st, B("k")] for k in ("selas", "sel1as") for st in (NEW, v(obj(k=["a", [i(1)]], z=["t"])), v(obj(k=obj(c=i(0), y=i(1)))), v(obj(k=s("x"))))]
        l += [["iter", x, F, NOTHING, NEW, n] for n in (0, 1, 2)]
    graph(ck, l, 2 if q else 3, "SqlSpec selects")
    random(ck, {"insert": 6, "bulk": 1, "select": 4, "select1": 3, "selas": 2, "sel1as": 2, "iter": 1, "run": 1, "delete": 1}, 150 if q else 3000, "select histories")

def Q02(ck):
    q = ck.quick; l = []
    vals = {"int": i(-2 ** 31), "i64": i(2 ** 40 + 1), "text": s("it's"), "blob": b("\0x")}
    other = {"int": i(5), "i64": i(5), "text": s(""), "blob": b("")}
    for typ in vals:
        for nn in (0, 1):
            for dflt in (ABSENT, ["n", other[typ]], v(other[typ])):
                F = info(field("zz", "text", v(s("not used"))), field("b", typ, dflt, nn=nn), field("d", "blob", ABSENT, nn=1 - nn))
                for x in (NOTHING, data(ABSENT, ABSENT, ABSENT), data(v(s("u")), ["n", vals[typ]], ABSENT), data(ABSENT, v(vals[typ]), v(b("y")))):
                    for k, stmt in enumerate((ins(b=p("b"), c=v(i(1)), d=p("d")), ins(1, c=p("b")), upd([("b", p("b")), ("d", p("d"))]), sel([["p", B("@b"), B("k")], "b"], [("b", p("b"))]), dele([("b", p("b"))]), sel(["id", ["p", B("@d"), B("k")]]))):
                        if q and k in (1, 4) and typ in ("int", "blob"): continue
                        l.append(["run", stmt, F, x, NEW] if stmt[0] in ("upd", "del") else ["select", stmt, F, x, NEW] if stmt[0] == "sel" else ["insert", stmt, F, x, NEW, [], 0])
    F = info(field("a"), field("b", "text", v(s("x"))))
    for stmt in (ins(a=p("a"), c=p("c")), ins(a=p("a"), c=p("b"), b=p("nope"), d=p("nada")), upd([("b", p("a")), ("d", p("c"))]), upd([("b", v(i(1)))], [("a", p("nope"))]), dele([("id", p("id"))]), sel(["a"], [("a", p("c"))]), sel([["p", B("@A"), B("k")]])):
        for f, x in ((F, data(v(i(1)), ABSENT)), (F, NOTHING), (info(), NOTHING), (NOTHING, NOTHING)):
            for st in (NEW, NO): l.append(["run", stmt, f, x, st])
            if stmt[0] == "ins": l.append(["insert", stmt, f, x, NEW, [], 1])
            if stmt[0] == "sel": l += [["select1", stmt, f, x, NEW], ["select", stmt, f, x, NEW], ["selas", stmt, f, x, v(obj(k=i(1))), B("k")], ["iter", stmt, f, x, NEW, 0]]
            if stmt[0] == "del": l.append(["delete", stmt, f, x, NEW, []])
            if stmt[0] == "upd": l.append(["updif", [sel(["id"]), [], stmt], f, x, NEW])
    graph(ck, l, 1, "SqlSpec binding", cap=15000 if q else 60000)
    random(ck, {"insert": 4, "run": 4, "select": 2, "updif": 2, "delete": 1, "upsert": 1}, 150 if q else 3000, "binding histories")

def Q03(ck):
    q = ck.quick; l = []
    F = info(field("a", "int"), field("b"), field("c", "text", v(s("dflt"))))
    S = sel(["id", "b"], [("a", p("a"))]); I = ins(a=p("a"), b=p("b"), c=p("c")); U = upd([("b", p("b"))], [("a", p("a"))]); UC = upd([("c", p("c"))], [("b", p("b"))])
    for k in (1, 2) if q else (1, 2, 3):
        for w in (1, 2):
            x = data(v(i(k)), v(i(w)), ABSENT)
            l += [["insert", I, F, x, st, key, 1] for st, key in ((NEW, []), (NO, []), (v(obj(a=i(9))), B("k")))]
            for kind in ("upsert", "updif", "update", "sel1ins"):
                l += [[kind, [S, I, U], F, x, st] for st in (NEW, v(obj(b=i(9), updated_rows=i(77), last_insert_rowid=i(88))), NO)]
                l.append([kind, [S, I, []], F, x, NEW])
            l += [["upsert", [S, I, UC], F, x, NEW], ["updif", [sel(["id"], [("b", p("b"))]), I, UC], F, x, NEW], ["sel1ins", [sel(["b"], [("b", p("b"))]), I, []], F, x, NEW], ["upsert", [sel(["id"], [("b", p("b"))]), I, UC], F, x, NEW]]
        l += [["delete", dele([("a", p("a"))]), F, data(v(i(k)), ABSENT, ABSENT), st, key] for st, key in ((NEW, []), (NO, []), (v(obj(deleted=i(5))), B("gone")))]
    l += [["delete", dele([("b", v(i(1)))]), NOTHING, NOTHING, NEW, []], ["run", upd([("a", p("a"))]), F, data(v(i(3)), ABSENT, ABSENT), NEW], ["insert", ins(id=v(i(2 ** 31 + 5)), c=v(i(1))), NOTHING, NOTHING, NEW, [], 1], ["updif", [sel(["id"]), [], upd([("d", v(s("all")))])], NOTHING, NOTHING, NEW]]
    graph(ck, l, 2 if q else 3, "SqlSpec upserts", cap=8000 if q else 60000)
    random(ck, {"insert": 2, "delete": 1, "update": 1, "updif": 3, "upsert": 4, "sel1ins": 3, "run": 1}, 150 if q else 3000, "upsert histories")

def Q04(ck):
    q = ck.quick; r = ck.rng
    F = info(field("a", "int"), field("b", "text", ABSENT, nu=1), field("c", "i64", ABSENT, nn=1), field("d", "blob"))
    G = info(field("a", "text", v(s("dflt"))), field("x", "i64", v(i(4)), col="b"), field("c", "text", ABSENT, nu=1, nn=1), field("id", "i64"))
    n4 = [ABSENT] * 4
    by = [[B("a"), p("a")]]
    cfgs = [[F, n4, sel(ALL, [("a", p("a"))]), [], [], ["w", by]], [G, [ABSENT, v(i(6)), ABSENT, ABSENT], sel(["id", "a", "b"], [("c", p("c"))]), [], upd([("b", p("x")), ("a", p("a"))], [("c", p("c"))]), NOTHING],
            [NOTHING, [], sel(ALL, [("a", p("a"))]), [], [], ["w", by]], [F, n4, sel(["b", "c"], [("a", p("a"))]), ins(1, a=p("a"), b=p("b"), c=p("c"), d=p("d")), [], ["w", by + [[B("b"), v(s("100%"))]]]]]
    js = [obj(), obj(a=i(1)), obj(a=Z, c=i(2)), obj(a=i(1), b=s("x"), c=i(3)), obj(b=Z, zz=i(1), c=Z), obj(c=s("w"), a=s("k")), obj(a=i(2), b=s("it's 5%"), d=s("blob")), obj(a=i(2 ** 40)), obj(id=i(4), b=i(2), c=s("w"))]
    kinds = ["ins", "upsert", "upd", "updif", "sel", "sel1ins"]
    oks = {n: [j for j in js if n != 2 or all(x[1][0] in "isz" for x in j[1])] for n in range(4)}
    l = [["op", cfgs[n], k, j, st] for n in range(4) for k in kinds for j in oks[n] for st in ((NEW,) if q else (NEW, v(["a", [i(1)]] if k == "sel" else obj(z=i(1)))))]
    for f in (F[1], G[1]): l += [["bind", f, g, j] for j in js for g in (n4, [v({"int": i(3), "i64": i(3), "text": s("g"), "blob": b("g")}[x[2]]) for x in f])]
    graph(ck, l, 1 if q else 2, "SqlSpec JSON-driven operations", cap=12000 if q else 60000)
    # the same operation object used again and again: every pair (thorough: triple) of inputs
    import itertools
    hs = []
    for n in range(4):
        for seq in itertools.product([(k, j) for k in ("ins", "upsert", "updif") for j in oks[n]], repeat=2):
            hs.append([["op", cfgs[n], k, j, NEW] for k, j in seq])
        if not q:
            for seq in itertools.product([(k, j) for k in ("ins", "upsert") for j in oks[n]], repeat=3): hs.append([["op", cfgs[n], k, j, NEW] for k, j in seq])
    ck.validate("SqlSpec", "drv_sql", hs, C0, label="repeated operations", leak=True, parts=6)
    random(ck, {"op": 12, "bind": 2, "insert": 1, "select": 1}, 150 if q else 3000, "JSON-driven histories")

def Q05(ck):
    q = ck.quick; l = []
    F = info(field("a", "int"), field("b")); x = data(v(i(1)), v(i(2)))
    sels = [sel(["id", "a", "b"]), sel(["id", ov()]), sel([ov(), "b"], desc=1), sel(["id"], [("a", p("a"))]), sel(["id"], [("a", p("nope"))]), bad(1), bad(2), bad(9), bad(10), bad(12)]
    inss = [ins(a=p("a"), c=v(i(1)), b=p("b")), ins(a=v(i(2)), c=v(i(1)), b=v(i(5))), ins(a=v(i(3)), b=p("b")), ins(a=p("zz"), c=v(i(1))), ins(id=v(s("x")), c=v(i(1))), bad(3), bad(8)]
    upds = [upd([("b", v(i(5)))], [("a", p("a"))]), upd([("a", v(i(1)))]), upd([("c", v(Z))]), upd([("id", v(Z))], [("a", v(i(1)))]), upd([("b", p("zz"))]), bad(4), bad(11)]
    for y in sels:
        for st in (NEW, NO): l.append(["run", y, F, x, st])
        l += [["select", y, F, x, st] for st in (NEW, NO, v(["a", [i(1)]]))] + [["select1", y, F, x, st] for st in (NEW, NO, v(obj(z=i(1))))]
        l += [["iter", y, F, x, st, n] for st in (NEW, NO, v(["a", []])) for n in (0, 1)] + [[k, y, F, x, st, B("k")] for k in ("selas", "sel1as") for st in (NEW, NO, v(obj(k=["a", [i(0)]])))]
        l += [[k, [y, ii, u], F, x, st] for k in ("upsert", "sel1ins", "updif", "update") for ii, u in ((inss[0], upds[0]), (inss[2], upds[1]), (inss[3], upds[4]), (inss[5], upds[5])) for st in ((NEW,) if q else (NEW, NO, v(obj(z=i(1)))))]
    for y in inss: l += [["insert", y, F, x, st, [], 1] for st in (NEW, NO, v(obj(z=i(1))))] + [["run", y, F, x, NEW]]
    for y in upds: l += [["run", y, F, x, NEW], ["updif", [sels[0], [], y], F, x, NEW], ["update", [sels[3], [], y], F, x, v(obj(z=i(1)))], ["upsert", [sels[0], inss[0], y], F, x, NEW]]
    for y in (dele(), dele([("a", p("zz"))]), bad(5)): l += [["delete", y, F, x, st, []] for st in (NEW, NO)]
    l += [["next", B("id"), []], ["next", B("nope"), []], ["join", ["a", [obj(a=i(1)), obj(a=i(2))]], info(field("a", "int", v(i(0)))), NOTHING, sel(["id", ov()], [("a", p("a"))]), []], ["join", obj(a=i(1)), info(field("a", "int", v(i(0)))), NOTHING, bad(2), B("k")]]
    cfg = [F, [ABSENT, ABSENT], sel(["id"], [("a", p("a"))]), [], [], ["w", [[B("a"), p("a")]]]]
    l += [["op", cfg, k, j, NEW] for k in ("ins", "upsert", "updif", "sel", "sel1ins") for j in (obj(a=i(1)), obj(a=i(1), b=i(5)))]
    l += [["mode", m] for m in ("ok", "ro", "int")]
    graph(ck, l, 2, "SqlSpec failures", cap=15000 if q else 60000)
    random(ck, {"insert": 3, "run": 1, "delete": 1, "update": 1, "updif": 2, "upsert": 2, "sel1ins": 2, "select": 2, "select1": 2, "selas": 2, "sel1as": 2, "iter": 2, "op": 3, "join": 1, "next": 1, "bulk": 1}, 150 if q else 3000, "histories with failures", 0.35)

def Q06(ck):
    q = ck.quick; l = []
    l += [["bulk", [obj(a=i(1), b=s("x"), c=i(0)), obj(c=s("it's")), obj(a=i(1), c=i(2)), obj(b=i(1))]], ["bulk", [obj(id=i(2 ** 31 - 1), a=Z, c=s("")), obj()]], ["bulk", [obj(a=s("k"), b=s("x"), c=i(2 ** 62), d=Z)]], ["bulk", []], ["bulk", [obj(a=i(2), b=s("x"), c=i(7))]], ["delete", dele([("a", v(i(1)))]), NOTHING, NOTHING, NEW, []]]
    l += [["next", B(c), w] for c in ("id", "a", "b", "d", "nope") for w in ([], [[B("b"), v(s("x"))]], [[B("c"), v(i(99))]])]
    d0 = info(field("a", "i64", v(i(0)))); dt = info(field("b", "text", v(s("a longer text")))); d2 = info(field("a", "int"), field("b", "text"), field("n1", "int", ABSENT, col="k"))
    js = [obj(), obj(a=i(1)), obj(a=i(2), b=s("x"), zz=Z), obj(a=s("k"), b=s("x")), obj(a=Z, b=i(1)), obj(b=s(""), a=i(9)), obj(a=i(2 ** 40), b=s("x"), rows=i(1), c=s("old"))]
    arrs = js + [["a", []], ["a", js], ["a", js[1:3] + js[5:]], ["a", [js[2], js[2], js[1]]]]
    for j in arrs:
        for f, x, w in ((d0, NOTHING, [("a", p("a"))]), (dt, NOTHING, [("b", p("b"))]), (d2, data(v(i(5)), v(s("w")), ABSENT), [("b", p("b"))]), (d2, data(ABSENT, ["n", s("")], ABSENT), [("b", p("b"))]), (d0, data(v(i(1))), []), (info(), NOTHING, [])):
            l += [["join", j, f, x, sel(["id", "c", ["c", B("a"), B("k")]], w), k] for k in ([], B("rows"))]
        l += [["join", j, info(field("a", "i64", v(i(0)), nl=1)), NOTHING, sel(["a"], [("a", p("a"))], 1), k] for k in ([], B("rows"))]
    graph(ck, l, 3, "SqlSpec joins", cap=12000 if q else 60000)
    random(ck, {"bulk": 3, "join": 5, "next": 2, "insert": 1, "delete": 1}, 200 if q else 3000, "join histories")
    hs = []; r = ck.rng
    for n in (1, 48, 49, 50, 51, 200):          # many members, many rows, long values
        hs.append([["bulk", [["o", [[B("c"), i(n)], [B("a"), s("k%d" % n)]] + ([[B("d"), s("y" * 3 * n)]])]]], ["next", B("id"), []], ["bulk", [obj(c=i(k), b=s("r%d" % k)) for k in range(n)]], ["next", B("c"), [[B("b"), v(s("r0"))]]], ["next", B("c"), []],
                   ["join", ["a", [obj(b=s("r%d" % k)) for k in range(0, n + 2, max(1, n // 5))]], info(field("b", "text", v(s("-")))), NOTHING, sel(ALL, [("b", p("b"))]), B("rows")],
                   ["select", sel(["c"], desc=1), info(field("c", nl=1)), NOTHING, NEW], ["next", B("id"), [[B("d"), v(s("z" * 5 * n))]]], ["insert", ins(id=v(i(2 ** 31 - 1)), c=v(i(0))), NOTHING, NOTHING, NEW, [], 1], ["next", B("id"), []], ["bulk", [obj(id=i(n), c=i(1))]]])
    ck.validate("SqlSpec", "drv_sql", hs, C0, label="sizes", leak=True, parts=1)

CHECKS = {"Q01": Q01, "Q02": Q02, "Q03": Q03, "Q04": Q04, "Q05": Q05, "Q06": Q06}

# ---------------------------------------------------------------- managed databases
CD = {"OPS": "{}", "MAXMARKS": 0, "MAXSCRIPTS": 0}
DINV = dict(properties=["OthersKept", "DataKept", "Settled", "NewIff", "Restores"])
def script(d, kind, what, n): return B("%s/%s_%s.%d.sql" % (d, kind, what, n))
def mark(t): return ["mark", B(t)]
def dinit(own="k.db", file="", v=1, rec=0, res=0, cus=0, prefix="", kind="k", db="db", s="s", d="d"): return ["init", B(db), B(s), B(d), B(kind), B(own), B(file), v, [rec, res, cus], B(prefix)]
def dgraph(ck, l, n, k, label, cap):
    hs = [c.ops for c in emit(ck, "DbmSpec", {"OPS": ops(l), "MAXMARKS": n, "MAXSCRIPTS": k}, workers=4, **DINV)]
    if len(hs) > cap: hs = ck.rng.sample(hs, cap)
    ck.validate("DbmSpec", "drv_dbm", hs, CD, label=label, leak=True, parts=6)
def longname(r, c):
    """a directory of up to 127 characters"""
    n = r.choice([60, 90, 100, 108, 109, 110, 111, 115, 118, 120, 125, 126, 127]); t = (c + "-" * 39 + "/") * 4
    return t[:n - 1] + "e"
class Dbm:
    """random histories; which operations make sense is kept track of roughly, and exactly by a filter through the specification's own rules (sim)"""
    def __init__(self, r):
        self.r = r; self.sc = {}; self.db = {}
        self.s, self.d = (r.choice(["s", "s/y"]), r.choice(["d", "s"])) if r.random() < 0.6 else (longname(r, "s"), longname(r, "d"))
    def effs(self, what):
        r = self.r; l = []
        if what == "create" or r.random() < 0.04: l.append(["make", r.choice([1, 1, 2, 3])])
        for _ in range(r.choice([0, 1, 1, 2])): l.append(mark(r.choice(["m", "it's", "\xc3\xa9", "x y", "-- no", "long" * 30]) + str(r.randrange(100))))
        if r.random() < (0.95 if what == "create" else 0.9 if what == "migrate" else 0.1): l.append(["ver", r.choice([1, 1, 2, 2, 3])])
        return l
    def run(self, d, es):
        d = dict(d)
        for e in es:
            if e[0] == "make":
                if d["made"]: return None
                d["made"] = e[1]
            elif e[0] == "mark":
                if not d["made"]: return None
                d["marks"] = d["marks"] + [e[1]]
            else: d["ver"] = e[1]
        return d
    def init(self, a):
        g = lambda n: self.sc.get(bytes(n)); sd = lambda k, w, v: bytes(B((self.s if w in ("create", "migrate") else self.d) + "/") + k + B("_%s.%d.sql" % (w, v)))
        p = bytes(a[1]) + b"/" + bytes(a[6] or a[5]); old = self.db.get(p); rec, res, cus = a[8]; c = self.sc.get(sd(a[4], "create", a[7]))
        if old is None or rec:
            if c is None: return False
            d = self.run({"made": 0, "ver": old["ver"] if old else 0, "marks": []}, c); new = True
        else: d = old; new = False
        if d is None: return False
        v = d["ver"]; l = []
        if new and res: l = [sd(a[9] or a[4], "insert", v)] + ([sd(a[4], "customize", v)] if cus else [])
        for n in l + [sd(a[4], "migrate", v)]:
            if n in self.sc:
                d = self.run(d, self.sc[n])
                if d is None: return False
        self.db[p] = d; return True
    def history(self, n):
        r = self.r; h = []; dirs = r.choice([["db"], ["db", "db/x/y"], ["w/db", "w"]] if len(self.s) < 20 else [[longname(r, "b")], [longname(r, "b"), longname(r, "B")]]); kinds = ["k", "a-much-longer_k"[:r.choice([3, 15])]]; files = ["k.db", "other.db"]; alt = ["", "", "z.db", "other.db"] + (["z" * 60 + ".db"] if len(self.s) > 20 else [])
        def dbs(need=True): return [(p.rsplit(b"/", 1)) for p, d in self.db.items() if d["made"] or not need]
        for k in kinds:
            for v in (1, 2): 
                e = self.effs("create"); nm = script(self.s, k, "create", v); self.sc[bytes(nm)] = e; h.append(["script", nm, e])
        while len(h) < n:
            x = r.random()
            if x < 0.22:
                w = r.choice(["create", "migrate", "migrate", "insert", "insert", "customize"]); nm = script(self.s if w in ("create", "migrate") else self.d, r.choice(kinds + (["pre"] if w == "insert" else [])), w, r.choice([0, 1, 2, 3]))
                e = self.effs(w); self.sc[bytes(nm)] = e; h.append(["script", nm, e])
            elif x < 0.26 and self.sc:
                nm = r.choice(sorted(self.sc)); del self.sc[nm]; h.append(["noscript", list(nm)])
            elif x < 0.66:
                a = dinit(r.choice(files), r.choice(alt), r.choice([1, 1, 2]), int(r.random() < 0.3), int(r.random() < 0.6), int(r.random() < 0.6), r.choice(["", "", "pre"]), r.choice(kinds), r.choice(dirs), self.s, self.d)
                if self.init(a): h.append(a)
            elif x < 0.69: h.append(["exist", B(r.choice(dirs)), B(r.choice(files + ["z.db", "no"]))])
            elif x < 0.74:
                dd, own, f, k, pre = r.choice(dirs), r.choice(files), r.choice(alt), r.choice(kinds), r.choice(["", "", "pre"]); ok = int(r.random() < 0.85)
                o = self.db.get(bytes(B(dd + "/" + (f or own))))
                if o and ok: self.sc[bytes(script(self.d, pre or k, "insert", o["ver"]))] = [["mark", m] for m in o["marks"]]
                h.append(["backup", B(dd), B(k), B(own), B(f), B(self.d), B(pre), ok])
                if o and r.random() < 0.6:
                    a = dinit(own, f, r.choice([1, 2]), 1, 1, 0, pre, k, dd, self.s, self.d)
                    if self.init(a): h.append(a)
            elif x < 0.84 and dbs():
                d, f = r.choice(dbs()); h.append(["add", list(d), list(f), B(r.choice(["u", "it's", ""]) + str(r.randrange(1000)))]); self.db[d + b"/" + f]["marks"] = self.db[d + b"/" + f]["marks"] + [h[-1][3]]
            elif x < 0.88 and dbs(False):
                d, f = r.choice(dbs(False)); h.append(["drop", list(d), list(f)]); self.db[d + b"/" + f].update(made=0, marks=[])
            elif x < 0.91 and dbs(False):
                d, f = r.choice(dbs(False)); h.append(["remove", list(d), list(f)]); del self.db[d + b"/" + f]
            elif x < 0.95:
                d, f = r.choice(dbs(False) or [(b"db", b"k.db")]); e = self.effs(r.choice(["migrate", "create"])); p = d + b"/" + f
                q = self.run(self.db.get(p, {"made": 0, "ver": 0, "marks": []}), e)
                if q: self.db[p] = q; h.append(["exec", list(d), list(f), e, r.randrange(6)])
            elif dbs():
                d, f = r.choice(dbs()); g = [y for x, y in dbs(False) if x == d]; o = [y for y in g if y != f]
                if o and r.random() < 0.6: h.append(["sattach", list(d), list(r.choice(o)), list(f), B(r.choice(["s", "it's", ""]) + str(r.randrange(1000)))]); self.db[d + b"/" + f]["marks"] = self.db[d + b"/" + f]["marks"] + [h[-1][4]]
                else: h.append(["attach", list(d), list(r.choice(g)), list(f)])
        return h
def Q07(ck):
    q = ck.quick
    C = lambda v, *e: ["script", script("s", "k", "create", v), list(e)]; M = lambda v, *e: ["script", script("s", "k", "migrate", v), list(e)]
    I = lambda k, v, *e: ["script", script("d", k, "insert", v), list(e)]; U = lambda v, *e: ["script", script("d", "k", "customize", v), list(e)]
    l = [C(1, ["make", 1], mark("c1"), ["ver", 1]), C(2, ["make", 3], ["ver", 2]), M(1, mark("m1"), ["ver", 2]), M(2, mark("m2")), I("k", 1, mark("i1")), I("p", 1, mark("p1")), U(1, mark("u1"))]
    l += [["noscript", x[1]] for x in (l[2], l[4], l[6])] if not q else []
    l += [dinit(v=v, rec=rec, res=res, cus=cus, prefix=pre) for v in (1, 2) for rec in (0, 1) for res, cus, pre in ((0, 0, ""), (1, 0, ""), (1, 1, ""), (1, 1, "p"), (0, 1, ""))]
    l += [["exist", B("db"), B("k.db")], ["backup", B("db"), B("k"), B("k.db"), [], B("d"), [], 1], ["backup", B("db"), B("k"), B("k.db"), [], B("d"), B("p"), 0], ["noopen", 0], ["noopen", 1]]
    dgraph(ck, l, 3, 3 if q else 4, "DbmSpec scripts", 3000 if q else 60000)
    hs = []; r = ck.rng
    for _ in range(150 if q else 3000): hs.append(Dbm(r).history(r.choice([15, 30, 60])))
    ck.validate("DbmSpec", "drv_dbm", hs, CD, label="database histories", leak=True, parts=6)

def Q08(ck):
    q = ck.quick; r = ck.rng; hs = []
    words = ["", "a", "/var/db", "x" * 127, "y" * 60, "$HOME/db", "it's", "$HOM", "a/$HOME"]
    for kind in ("pathtext", "pathtext2"):
        for w in ([["a", "bc", "d"], ["", "", ""], ["x" * 127, "y" * 100, "z" * 127]] if q else [["a", "bc", "d"], ["", "", ""], ["x" * 127, "y" * 100, "z" * 127], ["x", "y" * 90, ""]]):
            for n in list(range(0 if kind == "pathtext" else 1, 140)) + [400, 424, 425, 426, 427, 428, 500]: hs.append([[kind] + [B(x) for x in w] + [n]])
    for kind in ("infotext", "infotext2"):
        for k, f, fl, c in (("k", "k.db", (0, 1), 12), ("", "", (1, 0), 0), ("kkkkkkkkkkkkkkk", "f" * 31, (1, 1), 2000000000), ("k", "f", (0, 0), -3)):
            for n in range(0 if kind == "infotext" else 1, 200): hs.append([[kind, B(k), B(f), fl[0], fl[1], c, c + 1, n]])
    for _ in range(300 if q else 5000):
        t = [B(r.choice(words)) for _ in range(3)]; hs.append([[r.choice(["pathtext", "pathtext2"])] + t + [r.choice([1, 2, 20, 60, 200, 300, 400, 450])]])
        u = [B(("$HOME" + "z" * r.choice([0, 1, 20, 110, 120, 122])) if r.random() < 0.6 else r.choice(words)) for _ in range(3)]; hs.append([["norm"] + u + [B("/h" + "o" * r.choice([0, 3, 3, 3, 50, 98, 100, 120, 125, 200]))]])
    ck.validate("DbmSpec", "drv_dbm", hs, CD, label="texts", leak=True, parts=6)
CHECKS.update({"Q07": Q07, "Q08": Q08})

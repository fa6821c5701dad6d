-------------------------------- MODULE Heap --------------------------------
(* Objects of one cee_state: ownership by reference counts, by the delete policy and by nobody, deletion, garbage
   collection, deletion of the state.

   h.objs[i] is the i-th object made: k kind, p policies, s slots (object numbers, 0 = NULL), rc number of owning
   reference-counted slots plus references held by the user, ret held by a delete-policy slot, al allocated, ta tainted: a
   collection freed an owner of it, its count is not specified from then on.
   The operations a program may legally do are part of the specification: Step(h, a).ok. An operation is illegal when it
   would leave a pointer to a freed object in a live one (gc follows every slot), free something twice, put an owned object
   under the delete policy, or leave the decision to a count that is not specified. Everything legal must behave exactly
   as specified. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS NOBJ,      \* objects that may be made
          SLOTS,     \* bound on the slots of a list, set, map...
          KINDS,     \* kinds to allocate: "leaf","key","plain","list","stack","set","map","dict","tuple","triple","quad","ntup","tag","env","clo"
          NCLS,      \* how many different keys (key objects of one class are equal)
          POLS,      \* policies to use: 0 reference count, 1 delete, 2 no-op
          OPS,       \* further operations: "del","hold","root","ctx","gc","merge","clone"
          SIM, DEPTH \* simulation: print whole behaviours of DEPTH steps
VARIABLES h, last, hist
vars == <<h, last, hist>>
RC == 0  DELP == 1  NOOP == 2
Leafs == {"leaf", "key", "plain"}
Products == {"tuple", "triple", "quad", "ntup"}
New(k, p, s) == [k |-> k, p |-> p, s |-> s, rc |-> 0, ret |-> FALSE, al |-> TRUE, ta |-> FALSE]
N(hh) == Len(hh.objs)
O(hh, x) == hh.objs[x]
Alive(hh) == {x \in 1..N(hh) : O(hh, x).al}
\* policy of slot i of an object
PolAt(o, i) == CASE o.k \in {"list", "stack", "set", "dict", "tag"} -> o.p[1]
                 [] o.k = "map" -> o.p[IF i % 2 = 1 THEN 1 ELSE 2]
                 [] o.k = "clo" -> NOOP
                 [] OTHER -> o.p[i]
Bad(hh) == [hh EXCEPT !.bad = TRUE]
Managed(hh, x) == O(hh, x).k # "plain"
RcSlots(hh, x) == Cardinality({<<y, i>> \in (1..N(hh)) \X (1..(2 * SLOTS + 4)) : O(hh, y).al /\ i <= Len(O(hh, y).s) /\ O(hh, y).s[i] = x /\ PolAt(O(hh, y), i) = RC})
\* a slot of policy p takes x / gives x up to the caller
Incr(hh, p, x) == IF x = 0 \/ p = NOOP THEN hh
   ELSE IF ~O(hh, x).al \/ ~Managed(hh, x) THEN Bad(hh)
   ELSE IF p = RC THEN (IF O(hh, x).ret THEN hh ELSE [hh EXCEPT !.objs[x].rc = @ + 1])
   ELSE IF O(hh, x).ret \/ O(hh, x).rc # 0 \/ O(hh, x).ta THEN Bad(hh) ELSE [hh EXCEPT !.objs[x].ret = TRUE]
Decr(hh, p, x) == IF x = 0 \/ p = NOOP THEN hh
   ELSE IF p = RC THEN (IF O(hh, x).ret THEN hh ELSE IF O(hh, x).rc = 0 THEN Bad(hh) ELSE [hh EXCEPT !.objs[x].rc = @ - 1])
   ELSE IF ~O(hh, x).ret \/ O(hh, x).ta THEN Bad(hh)
   ELSE [hh EXCEPT !.objs[x].ret = FALSE]
RECURSIVE Del(_, _), DelE(_, _, _), DelRef(_, _), DelSlots(_, _, _)
Del(hh, x) == IF ~O(hh, x).al \/ ~Managed(hh, x) THEN Bad(hh) ELSE DelSlots([hh EXCEPT !.objs[x].al = FALSE], O(hh, x), 1)
DelSlots(hh, o, i) == IF i > Len(o.s) \/ hh.bad THEN hh ELSE DelSlots(DelE(hh, PolAt(o, i), o.s[i]), o, i + 1)
DelE(hh, p, x) == IF x = 0 \/ p = NOOP THEN hh ELSE IF p = RC THEN DelRef(hh, x) ELSE Del(hh, x)
DelRef(hh, x) == IF ~O(hh, x).al THEN Bad(hh)
   ELSE IF O(hh, x).ret THEN hh
   ELSE IF O(hh, x).rc = 0 THEN Bad(hh)
   ELSE LET h1 == [hh EXCEPT !.objs[x].rc = @ - 1] IN
        IF O(h1, x).rc > 0 THEN h1 ELSE IF O(h1, x).ta THEN Bad(h1) ELSE Del(h1, x)
\* who still points at x
Refs(hh, x) == \/ x \in hh.roots
               \/ x \in {hh.ctx[1], hh.ctx[2]}
               \/ \E y \in Alive(hh) : \E i \in 1..Len(O(hh, y).s) : O(hh, y).s[i] = x
NoDangling(hh) == /\ \A y \in Alive(hh) : \A i \in 1..Len(O(hh, y).s) : O(hh, y).s[i] = 0 \/ O(hh, O(hh, y).s[i]).al
                  /\ \A x \in hh.roots : O(hh, x).al
                  /\ \A i \in 1..2 : hh.ctx[i] = 0 \/ O(hh, hh.ctx[i]).al
\* an object released from a delete-policy slot must have no counted owners: they were not counted meanwhile
RetOk(h0, h1) == \A x \in 1..N(h0) : (O(h0, x).ret /\ O(h1, x).al /\ ~O(h1, x).ret) => RcSlots(h1, x) = 0
Reach(hh) == LET Step1(S) == S \cup UNION {{O(hh, x).s[i] : i \in 1..Len(O(hh, x).s)} \ {0} : x \in S}
                 RECURSIVE Fix(_) Fix(S) == IF Step1(S) = S THEN S ELSE Fix(Step1(S))
             IN Fix((hh.roots \cup {hh.ctx[1], hh.ctx[2]}) \ {0})
OwnedBy(hh, y, x) == \E i \in 1..Len(O(hh, y).s) : O(hh, y).s[i] = x /\ PolAt(O(hh, y), i) # NOOP
CntBy(hh, y, x) == Cardinality({i \in 1..Len(O(hh, y).s) : O(hh, y).s[i] = x /\ PolAt(O(hh, y), i) = RC})
RECURSIVE SumCnt(_, _, _)
SumCnt(hh, S, x) == IF S = {} THEN 0 ELSE LET y == CHOOSE y \in S : TRUE IN CntBy(hh, y, x) + SumCnt(hh, S \ {y}, x)
GcDo(hh) == LET R == Reach(hh) F == {x \in Alive(hh) : x \notin R /\ Managed(hh, x)} IN
   IF \E x \in R : ~Managed(hh, x) THEN Bad(hh)
   ELSE [hh EXCEPT !.objs = [x \in 1..N(hh) |-> IF x \in F THEN [O(hh, x) EXCEPT !.al = FALSE]
          ELSE IF \E y \in F : OwnedBy(hh, y, x)
               THEN [O(hh, x) EXCEPT !.ta = TRUE, !.rc = IF O(hh, x).ret THEN @ ELSE @ - SumCnt(hh, F, x)]
               ELSE O(hh, x)]]
RECURSIVE IncrAll(_, _, _, _)
IncrAll(hh, ps, xs, i) == IF i > Len(xs) THEN hh ELSE IncrAll(Incr(hh, ps[i], xs[i]), ps, xs, i + 1)
\* make an object holding xs with slot policies ps (as the slots see them)
Make(hh, k, p, xs) == LET h1 == [hh EXCEPT !.objs = Append(@, New(k, p, xs))] IN
                      IncrAll(h1, [i \in 1..Len(xs) |-> PolAt(New(k, p, xs), i)], xs, 1)
SetSlots(hh, x, s) == [hh EXCEPT !.objs[x].s = s]
IsK(hh, x, k) == x \in 1..N(hh) /\ O(hh, x).al /\ O(hh, x).k = k
Class(hh, key) == O(hh, key).p[1]         \* key objects compare by class
\* ---- maps: slots k1 v1 k2 v2 ... in insertion order
MIdx(hh, m, c) == LET s == O(hh, m).s I == {i \in 1..(Len(s) \div 2) : Class(hh, s[2 * i - 1]) = c} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
Cut2(s, i) == SubSeq(s, 1, 2 * i - 2) \o SubSeq(s, 2 * i + 1, Len(s))
MAdd(hh, m, k, v, how) ==
   LET o == O(hh, m) i == MIdx(hh, m, Class(hh, k)) IN
   IF i = 0 THEN Incr(Incr(SetSlots(hh, m, o.s \o <<k, v>>), o.p[1], k), o.p[2], v)
   ELSE LET old == o.s[2 * i]
            nv == IF how = 1 THEN old ELSE v
            h1 == Incr(hh, o.p[1], k)       \* the new, equal key is taken and given back: freed if nobody else owns it
            h2 == IF nv = old THEN h1 ELSE SetSlots(Decr(Incr(h1, o.p[2], nv), o.p[2], old), m, [o.s EXCEPT ![2 * i] = nv])
            h3 == IF o.p[1] = DELP /\ k = o.s[2 * i - 1] THEN Bad(h2) ELSE DelE(h2, o.p[1], k)
        IN h3
MRem(hh, m, i) == LET o == O(hh, m) IN Decr(Decr(SetSlots(hh, m, Cut2(o.s, i)), o.p[1], o.s[2 * i - 1]), o.p[2], o.s[2 * i])
RECURSIVE MMerge(_, _, _, _, _)
MMerge(hh, d, s, i, how) == IF i > Len(O(hh, s).s) \div 2 \/ hh.bad THEN hh
   ELSE MMerge(MAdd(hh, d, O(hh, s).s[2 * i - 1], O(hh, s).s[2 * i], how), d, s, i + 1, how)
NewKeys(hh, d, s) == Cardinality({i \in 1..(Len(O(hh, s).s) \div 2) : MIdx(hh, d, Class(hh, O(hh, s).s[2 * i - 1])) = 0})
RECURSIVE DelEach(_, _, _, _)
DelEach(hh, p, xs, i) == IF i > Len(xs) \/ hh.bad THEN hh ELSE DelEach(DelE(hh, p, xs[i]), p, xs, i + 1)
RECURSIVE DecrAll(_, _, _, _)
DecrAll(hh, p, xs, i) == IF i > Len(xs) THEN hh ELSE DecrAll(Decr(hh, p, xs[i]), p, xs, i + 1)
SIdx(s, x) == LET I == {i \in 1..Len(s) : s[i] = x} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
Cut(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
DistinctApp(s, t) == LET RECURSIVE F(_, _) F(a, b) == IF b = <<>> THEN a ELSE F(IF SIdx(a, Head(b)) = 0 THEN Append(a, Head(b)) ELSE a, Tail(b)) IN F(s, t)

Res(hh, r) == [h |-> hh, r |-> r]
\* effect of an operation whose arguments exist; .h.bad says it was illegal
Eff(hh, a) ==
  LET op == a[1]  A(i) == O(hh, a[i]) IN
  CASE op = "leaf" -> Res(Make(hh, "leaf", <<a[2]>>, <<>>), 0)
    [] op = "key" -> Res(Make(hh, "key", <<a[2]>>, <<>>), 0)
    [] op = "plain" -> Res(Make(hh, "plain", <<>>, <<>>), 0)
    [] op \in {"list", "stack", "set", "dict"} -> Res(Make(hh, op, <<a[2]>>, <<>>), 0)
    [] op = "map" -> Res(Make(hh, op, <<a[2], a[3]>>, <<>>), 0)
    [] op = "tuple" -> Res(Make(hh, op, SubSeq(a, 2, 3), SubSeq(a, 4, 5)), 0)
    [] op = "triple" -> Res(Make(hh, op, SubSeq(a, 2, 4), SubSeq(a, 5, 7)), 0)
    [] op = "quad" -> Res(Make(hh, op, SubSeq(a, 2, 5), SubSeq(a, 6, 9)), 0)
    [] op = "ntup" -> Res(Make(hh, op, [i \in 1..(Len(a) - 1) |-> RC], Tail(a)), 0)
    [] op = "tag" -> Res(Make(hh, op, <<a[2]>>, <<a[3]>>), 0)
    [] op = "env" -> Res(Make(hh, op, SubSeq(a, 2, 3), SubSeq(a, 4, 5)), 0)
    [] op = "clo" -> Res(Make(hh, op, <<>>, <<a[2]>>), 0)
    [] op = "app" -> Res(Incr(SetSlots(hh, a[2], Append(A(2).s, a[3])), A(2).p[1], a[3]), 0)
    [] op = "ins" -> Res(Incr(SetSlots(hh, a[2], SubSeq(A(2).s, 1, a[3]) \o <<a[4]>> \o SubSeq(A(2).s, a[3] + 1, Len(A(2).s))), A(2).p[1], a[4]), 0)
    [] op = "lrem" -> Res(Decr(SetSlots(hh, a[2], Cut(A(2).s, a[3] + 1)), A(2).p[1], A(2).s[a[3] + 1]), 1)
    [] op = "lmerge" -> Res(IncrAll(SetSlots(hh, a[2], A(2).s \o A(3).s), [i \in 1..Len(A(3).s) |-> A(2).p[1]], A(3).s, 1), 0)
    [] op = "push" -> Res(Incr(SetSlots(hh, a[2], <<a[3]>> \o A(2).s), A(2).p[1], a[3]), 1)
    [] op = "pop" -> Res(Decr(SetSlots(hh, a[2], Tail(A(2).s)), A(2).p[1], Head(A(2).s)), Head(A(2).s))
    [] op = "sadd" -> IF SIdx(A(2).s, a[3]) # 0 THEN Res(hh, 0) ELSE Res(Incr(SetSlots(hh, a[2], Append(A(2).s, a[3])), A(2).p[1], a[3]), 0)
    [] op = "srem" -> LET i == SIdx(A(2).s, a[3]) IN IF i = 0 THEN Res(hh, 0) ELSE Res(Decr(SetSlots(hh, a[2], Cut(A(2).s, i)), A(2).p[1], a[3]), a[3])
    [] op = "sclear" -> LET h1 == DelEach(SetSlots(hh, a[2], <<>>), A(2).p[1], A(2).s, 1) IN Res(IF O(h1, a[2]).al THEN h1 ELSE Bad(h1), 0)
    [] op = "sunion" -> Res(Make(hh, "set", <<IF A(2).p[1] = NOOP THEN NOOP ELSE RC>>, DistinctApp(A(2).s, A(3).s)), 0)
    [] op = "sclone" -> Res(Make(hh, "set", A(2).p, A(2).s), 0)
    [] op = "madd" -> LET i == MIdx(hh, a[2], Class(hh, a[3])) IN Res(MAdd(hh, a[2], a[3], a[4], 0), IF i = 0 THEN 0 ELSE A(2).s[2 * i])
    [] op = "mrem" -> LET i == MIdx(hh, a[2], a[3]) IN IF i = 0 THEN Res(hh, 0) ELSE Res(MRem(hh, a[2], i), A(2).s[2 * i])
    [] op = "mren" -> LET i == MIdx(hh, a[2], a[3]) IN IF i = 0 THEN Res(hh, 0) ELSE Res(MAdd(MRem(hh, a[2], i), a[2], a[4], A(2).s[2 * i], 0), 1)
    [] op = "mmerge" -> Res(IF NewKeys(hh, a[2], a[3]) > 1 THEN Bad(hh) ELSE MMerge(hh, a[2], a[3], 1, a[4]), 0)
    [] op = "mclone" -> Res(IF Len(A(2).s) > 2 THEN Bad(hh) ELSE Make(hh, "map", A(2).p, A(2).s), 0)
    [] op = "mkeys" -> Res(Make(hh, "list", <<IF A(2).p[1] = NOOP THEN NOOP ELSE RC>>, [i \in 1..(Len(A(2).s) \div 2) |-> A(2).s[2 * i - 1]]), 0)
    \* the order of these lists is not specified: made of at most one entry
    [] op = "mkeys1" -> Res(IF Len(A(2).s) > 2 THEN Bad(hh) ELSE Make(hh, "list", <<IF A(2).p[1] = NOOP THEN NOOP ELSE RC>>, IF A(2).s = <<>> THEN <<>> ELSE <<A(2).s[1]>>), 0)
    [] op = "mvals" -> Res(IF Len(A(2).s) > 2 THEN Bad(hh) ELSE Make(hh, "list", <<IF A(2).p[2] = NOOP THEN NOOP ELSE RC>>, IF A(2).s = <<>> THEN <<>> ELSE <<A(2).s[2]>>), 0)
    [] op = "svals" -> Res(IF Len(A(2).s) > 1 THEN Bad(hh) ELSE Make(hh, "list", <<IF A(2).p[1] = NOOP THEN NOOP ELSE RC>>, A(2).s), 0)
    [] op = "dadd" -> Res(Incr(Incr(SetSlots(hh, a[2], A(2).s \o <<a[3], a[4]>>), A(2).p[1], a[3]), A(2).p[1], a[4]), 0)
    [] op = "hold" -> Res(IF A(2).ret \/ A(2).ta THEN Bad(hh) ELSE Incr([hh EXCEPT !.ext[a[2]] = @ + 1], RC, a[2]), 0)
    [] op = "drop" -> Res(IF A(2).ret THEN Bad(hh) ELSE DelRef([hh EXCEPT !.ext[a[2]] = @ - 1], a[2]), 0)
    \* many owners at once
    [] op = "holdn" -> Res(IF A(2).ret \/ A(2).ta THEN Bad(hh) ELSE [hh EXCEPT !.ext[a[2]] = @ + a[3], !.objs[a[2]].rc = @ + a[3]], 0)
    [] op = "dropn" -> Res(IF A(2).ret THEN Bad(hh) ELSE DelRef([hh EXCEPT !.ext[a[2]] = @ - a[3], !.objs[a[2]].rc = @ - (a[3] - 1)], a[2]), 0)
    [] op = "del" -> Res(IF Refs(hh, a[2]) \/ hh.ext[a[2]] > 0 THEN Bad(hh) ELSE Del(hh, a[2]), 0)
    [] op = "root" -> Res([hh EXCEPT !.roots = @ \cup {a[2]}], 0)
    [] op = "unroot" -> Res([hh EXCEPT !.roots = @ \ {a[2]}], 0)
    [] op = "ctx" -> Res(IF hh.ctx[a[2]] = a[3] THEN hh
                         ELSE IF hh.ctx[a[2]] = 0 THEN Incr([hh EXCEPT !.ctx[a[2]] = a[3]], RC, a[3])
                         ELSE Decr(Incr([hh EXCEPT !.ctx[a[2]] = a[3]], RC, a[3]), RC, hh.ctx[a[2]]), 0)
    [] op = "unctx" -> Res(IF hh.ctx[a[2]] = 0 THEN hh ELSE Decr([hh EXCEPT !.ctx[a[2]] = 0], RC, hh.ctx[a[2]]), 0)
    [] op = "getctx" -> Res(hh, hh.ctx[a[2]])
    [] op = "gc" -> Res(GcDo(hh), 0)
\* a held reference does not keep an object alive over a collection: collecting it would leave the holder dangling
HoldOk(hh) == \A x \in 1..N(hh) : hh.ext[x] > 0 => O(hh, x).al
Legal(h0, h1) == ~h1.bad /\ NoDangling(h1) /\ RetOk(h0, h1) /\ HoldOk(h1)
                 /\ \A y \in 1..N(h1) : Len(O(h1, y).s) <= (IF O(h1, y).k \in {"map", "dict"} THEN 2 * SLOTS ELSE IF O(h1, y).k \in Products \cup {"env", "tag", "clo"} THEN 16 ELSE SLOTS)

\* ---------- observation
Shown(o) == IF o.k = "plain" \/ o.ret \/ o.ta THEN -1 ELSE o.rc
DictFind(hh, o, c) == LET I == {i \in 1..(Len(o.s) \div 2) : Class(hh, o.s[2 * i - 1]) = c} IN
                      IF I = {} THEN 0 ELSE LET i == CHOOSE i \in I : \A j \in I : i <= j IN o.s[2 * i]
Content(hh, o) == CASE o.k = "set" -> SortSeq(o.s, LAMBDA x, y : x < y)
                    [] o.k = "dict" -> [c \in 1..4 |-> DictFind(hh, o, c - 1)]
                    [] o.k \in Leafs -> <<1>>                                         \* the value is intact
                    [] OTHER -> o.s
ObsO(hh, o) == IF o.al THEN <<Shown(o)>> \o Content(hh, o) ELSE <<>>
Obs(hh) == [x \in 1..N(hh) |-> ObsO(hh, O(hh, x))]

\* ---------- operations offered in a state, by class
Xs == Alive(h)
Of(k) == {x \in Xs : O(h, x).k = k}
El == {x \in Xs : TRUE}
Room(x, n) == Len(O(h, x).s) + n <= SLOTS
Alloc == IF N(h) >= NOBJ THEN {} ELSE
   (IF "leaf" \in KINDS THEN {<<"leaf", t>> : t \in (IF SIM THEN 0..2 ELSE {0})} ELSE {})
   \cup (IF "key" \in KINDS THEN {<<"key", c>> : c \in 0..(NCLS - 1)} ELSE {})
   \cup (IF "plain" \in KINDS THEN {<<"plain">>} ELSE {})
   \cup {<<k, p>> : k \in KINDS \cap {"list", "stack", "set", "dict"}, p \in POLS}
   \cup (IF "map" \in KINDS THEN {<<"map", p, q>> : p \in POLS, q \in POLS} ELSE {})
Mk == IF N(h) >= NOBJ THEN {} ELSE
   (IF "tuple" \in KINDS THEN {<<"tuple", p, q, x, y>> : p \in POLS, q \in POLS, x \in El, y \in El} ELSE {})
   \cup (IF "triple" \in KINDS THEN {<<"triple", p, q, RC, x, y, z>> : p \in POLS, q \in POLS, x \in El, y \in El, z \in El} ELSE {})
   \cup (IF "quad" \in KINDS THEN {<<"quad", RC, p, q, NOOP, x, y, z, w>> : p \in POLS, q \in POLS, x \in El, y \in El, z \in El, w \in El} ELSE {})
   \cup (IF "ntup" \in KINDS THEN {<<"ntup", x>> : x \in El} \cup {<<"ntup", x, y>> : x \in El, y \in El} \cup {<<"ntup", x, y, x, y, x>> : x \in El, y \in El} \cup {<<"ntup">>} ELSE {})
   \cup (IF "tag" \in KINDS THEN {<<"tag", p, x>> : p \in POLS, x \in El \cup {0}} ELSE {})
   \cup (IF "env" \in KINDS THEN {<<"env", p, q, e, m>> : p \in POLS, q \in POLS, e \in Of("env") \cup {0}, m \in Of("map") \cup {0}} ELSE {})
   \cup (IF "clo" \in KINDS THEN {<<"clo", e>> : e \in Of("env")} ELSE {})
   \cup (IF "clone" \in OPS THEN {<<"sunion", s, t>> : s \in Of("set"), t \in Of("set")} \cup {<<"sclone", s>> : s \in Of("set")}
                                  \cup {<<"mclone", m>> : m \in Of("map")} \cup {<<k, m>> : k \in {"mkeys", "mkeys1", "mvals"}, m \in Of("map")} \cup {<<"svals", s>> : s \in Of("set")} ELSE {})
Put == {<<"app", l, x>> : l \in Of("list"), x \in El} \cup {<<"push", l, x>> : l \in Of("stack"), x \in El} \cup {<<"sadd", l, x>> : l \in Of("set"), x \in El}
   \cup {<<"madd", m, k, v>> : m \in Of("map"), k \in Of("key"), v \in El} \cup {<<"dadd", d, k, v>> : d \in Of("dict"), k \in Of("key"), v \in El}
   \cup (IF SIM THEN {<<"ins", l, 0, x>> : l \in Of("list"), x \in El} ELSE {})
Take == {<<"lrem", l, i>> : l \in {y \in Of("list") : TRUE}, i \in 0..(SLOTS - 1)} \cup {<<"pop", s>> : s \in Of("stack")} \cup {<<"srem", s, x>> : s \in Of("set"), x \in El}
   \cup {<<"sclear", s>> : s \in Of("set")} \cup {<<"mrem", m, c>> : m \in Of("map"), c \in 0..(NCLS - 1)} \cup {<<"mren", m, c, k>> : m \in Of("map"), c \in 0..(NCLS - 1), k \in Of("key")}
Join == IF "merge" \in OPS THEN {<<"lmerge", l, j>> : l \in Of("list"), j \in Of("list")} \cup {<<"mmerge", m, n, w>> : m \in Of("map"), n \in Of("map"), w \in 0..1} ELSE {}
Hold == IF "hold" \in OPS THEN {<<"hold", x>> : x \in {x \in Xs : Managed(h, x) /\ h.ext[x] < 1}} \cup {<<"drop", x>> : x \in {x \in Xs : h.ext[x] > 0}} ELSE {}
   \cup (IF "holdn" \in OPS THEN {<<"holdn", x, n>> : x \in {x \in Xs : Managed(h, x) /\ h.ext[x] = 0}, n \in {65535, 70000}} \cup {<<"dropn", x, n>> : x \in {x \in Xs : h.ext[x] > 0}, n \in {y \in {65535, 70000} : \E x \in Xs : h.ext[x] = y}} ELSE {})
DelOps == IF "del" \in OPS THEN {<<"del", x>> : x \in {x \in Xs : Managed(h, x)}} ELSE {}
Roots == (IF "root" \in OPS THEN {<<"root", x>> : x \in {x \in Xs \ h.roots : Managed(h, x)}} \cup {<<"unroot", x>> : x \in h.roots} ELSE {})
   \cup (IF "ctx" \in OPS THEN {<<"ctx", i, x>> : i \in (IF SIM THEN 1..2 ELSE {1}), x \in {x \in Xs : Managed(h, x)}} \cup {<<"unctx", i>> : i \in {i \in 1..2 : h.ctx[i] # 0}} \cup {<<"getctx", i>> : i \in (IF SIM THEN 1..2 ELSE {1})} ELSE {})
Gc == IF "gc" \in OPS THEN {<<"gc">>} ELSE {}
\* well-formedness of arguments (what the operation itself requires)
Pre(a) == CASE a[1] = "dropn" -> h.ext[a[2]] = a[3] [] a[1] = "lrem" -> a[3] < Len(O(h, a[2]).s) [] a[1] = "pop" -> O(h, a[2]).s # <<>>
            [] a[1] \in {"sunion"} -> O(h, a[2]).p = O(h, a[3]).p
            [] a[1] = "mmerge" -> a[2] # a[3]
            [] a[1] \in {"app", "ins", "push", "sadd"} -> Room(a[2], 1)
            [] OTHER -> TRUE
\* one random operation (simulation): arguments drawn at random, 0 where there is nothing to draw
R(S) == IF S = {} THEN 0 ELSE RandomElement(S)
Rp == R(POLS)
Rx == R(El)
Fam == SetToSeq((KINDS \ {"clo"}) \cup (IF "clo" \in KINDS THEN {"clo"} ELSE {}))
GenAlloc(k) == CASE k = "leaf" -> <<"leaf", R(0..2)>> [] k = "key" -> <<"key", R(0..(NCLS - 1))>> [] k = "plain" -> <<"plain">>
   [] k \in {"list", "stack", "set", "dict"} -> <<k, Rp>> [] k = "map" -> <<"map", Rp, Rp>>
   [] k = "tuple" -> <<k, Rp, Rp, Rx, Rx>> [] k = "triple" -> <<k, Rp, Rp, Rp, Rx, Rx, Rx>> [] k = "quad" -> <<k, Rp, Rp, Rp, Rp, Rx, Rx, Rx, Rx>>
   [] k = "ntup" -> LET x == Rx y == Rx IN R({<<"ntup">>, <<"ntup", x>>, <<"ntup", x, y>>, <<"ntup", x, y, y, x, y>>})
   [] k = "tag" -> <<k, Rp, Rx>> [] k = "env" -> <<k, Rp, Rp, R(Of("env") \cup {0}), R(Of("map") \cup {0})>> [] k = "clo" -> <<k, R(Of("env"))>>
GenUse(j) == CASE j = 1 -> <<"app", R(Of("list")), Rx>> [] j = 2 -> <<"push", R(Of("stack")), Rx>> [] j = 3 -> <<"sadd", R(Of("set")), Rx>>
   [] j \in {4, 5} -> <<"madd", R(Of("map")), R(Of("key")), Rx>> [] j = 6 -> <<"dadd", R(Of("dict")), R(Of("key")), Rx>>
   [] j = 7 -> <<"ins", R(Of("list")), R(0..(SLOTS - 1)), Rx>> [] j = 8 -> <<"lrem", R(Of("list")), R(0..(SLOTS - 1))>> [] j = 9 -> <<"pop", R(Of("stack"))>>
   [] j = 10 -> <<"srem", R(Of("set")), Rx>> [] j = 11 -> <<"sclear", R(Of("set"))>> [] j = 12 -> <<"mrem", R(Of("map")), R(0..(NCLS - 1))>>
   [] j = 13 -> <<"mren", R(Of("map")), R(0..(NCLS - 1)), R(Of("key"))>> [] j = 14 -> <<"lmerge", R(Of("list")), R(Of("list"))>>
   [] j = 15 -> <<"mmerge", R(Of("map")), R(Of("map")), R(0..1)>> [] j = 16 -> <<"sunion", R(Of("set")), R(Of("set"))>> [] j = 17 -> <<"sclone", R(Of("set"))>>
   [] j = 18 -> <<"mclone", R(Of("map"))>> [] j = 19 -> <<"mkeys", R(Of("map"))>>
   [] j \in {20, 21} -> <<"hold", Rx>> [] j \in {22, 23} -> <<"drop", R({x \in Xs : h.ext[x] > 0})>>
   [] j \in {24, 25} -> <<"del", Rx>> [] j = 26 -> <<"root", Rx>> [] j = 27 -> <<"unroot", R(h.roots)>>
   [] j = 28 -> <<"ctx", R(1..2), Rx>> [] j = 29 -> <<"unctx", R(1..2)>> [] j = 30 -> <<"gc">>
   [] j = 31 -> <<"mkeys1", R(Of("map"))>> [] j = 32 -> <<"mvals", R(Of("map"))>> [] j = 33 -> <<"svals", R(Of("set"))>> [] j = 34 -> <<"getctx", R(1..2)>>
Group(o) == CASE o \in {"lmerge", "mmerge"} -> "merge" [] o \in {"sunion", "sclone", "mclone", "mkeys", "mkeys1", "mvals", "svals"} -> "clone" [] o \in {"hold", "drop"} -> "hold"
              [] o \in {"root", "unroot"} -> "root" [] o \in {"ctx", "unctx", "getctx"} -> "ctx" [] o = "del" -> "del" [] o = "gc" -> "gc" [] OTHER -> ""
Makes(o) == o \in KINDS \/ Group(o) = "clone"
\* arguments that must exist
Args(a) == CASE a[1] \in Leafs \cup {"list", "stack", "set", "dict", "map", "gc", "unctx", "getctx"} -> TRUE
   [] a[1] \in Products -> \A i \in (IF a[1] = "ntup" THEN 2 ELSE 2 + (Len(a) - 1) \div 2)..Len(a) : a[i] # 0
   [] a[1] = "tag" -> TRUE [] a[1] = "env" -> TRUE
   [] a[1] = "ins" -> a[2] # 0 /\ a[4] # 0 /\ a[3] <= Len(O(h, a[2]).s)
   [] a[1] = "lrem" -> a[2] # 0
   [] a[1] \in {"mrem"} -> a[2] # 0
   [] a[1] = "mren" -> a[2] # 0 /\ a[4] # 0
   [] a[1] = "mmerge" -> a[2] # 0 /\ a[3] # 0
   [] a[1] = "ctx" -> a[3] # 0
   [] OTHER -> \A i \in 2..Len(a) : a[i] # 0
GenOps == [i \in 1..14 |-> IF RandomElement(1..3) = 1 THEN GenAlloc(Fam[RandomElement(1..Len(Fam))]) ELSE GenUse(RandomElement(1..34))]
ManagedArgs(a) == (a[1] \in {"hold", "drop", "del", "root"} => Managed(h, a[2])) /\ (a[1] = "ctx" => Managed(h, a[3])) /\ (a[1] = "hold" => h.ext[a[2]] < 2)
Able(a) == IF ~Args(a) THEN FALSE ELSE IF ~ManagedArgs(a) THEN FALSE ELSE IF Makes(a[1]) /\ N(h) >= NOBJ THEN FALSE
           ELSE IF Group(a[1]) # "" /\ Group(a[1]) \notin OPS THEN FALSE ELSE IF ~Pre(a) THEN FALSE ELSE Legal(h, Eff(h, a).h)
AllOps == Alloc \cup Mk \cup Put \cup Take \cup Join \cup Hold \cup DelOps \cup Roots \cup Gc
Apply(a) == LET x == Eff(h, a) IN
   /\ Legal(h, x.h) = TRUE /\ h' = x.h /\ last' = [a |-> a, e |-> [r |-> x.r, o |-> Obs(x.h)]]
   /\ hist' = IF SIM THEN Append(hist, last') ELSE hist
Do(a) == Pre(a) = TRUE /\ Apply(a)
Skip == UNCHANGED <<h, hist>> /\ last' = [a |-> <<"nop">>, e |-> [r |-> 0, o |-> <<>>]]
H0 == [objs |-> <<>>, roots |-> {}, ctx |-> <<0, 0>>, ext |-> [x \in 1..NOBJ |-> 0], bad |-> FALSE]
Init == h = H0 /\ last = [a |-> <<"init">>, e |-> [r |-> 0, o |-> <<>>]] /\ hist = <<>>
Next == IF ~SIM THEN \E a \in AllOps : Do(a)
        ELSE \E g \in {GenOps} :
             LET I == {i \in 1..14 : Able(g[i])} IN
             IF I = {} THEN Skip ELSE \E i \in {CHOOSE i \in I : \A j \in I : i <= j} : Apply(g[i])
Spec == Init /\ [][Next]_vars

\* ---------- what the specification itself must satisfy
RcExact == \A x \in Alive(h) : LET o == O(h, x) IN (~o.ret /\ ~o.ta) => o.rc = RcSlots(h, x) + h.ext[x] + Cardinality({i \in 1..2 : h.ctx[i] = x})
NeverDangling == NoDangling(h) /\ ~h.bad
\* a deletion never frees what still has an owner; a collection frees exactly the unreachable
OwnedSurvive == [][\A x \in 1..N(h) : (O(h, x).al /\ ~O(h', x).al /\ last'.a[1] # "gc") => ~Refs(h', x)]_vars
GcExact == [][last'.a[1] = "gc" => \A x \in 1..N(h) : O(h, x).al /\ Managed(h, x) => (O(h', x).al <=> x \in Reach(h))]_vars
view == h
EmitGraph == PrintT(ToJson([s |-> h, a |-> last'.a, e |-> last'.e, t |-> h']))
EmitSim == TLCGet("level") < DEPTH \/ PrintT(ToJson([ops |-> hist']))
=============================================================================

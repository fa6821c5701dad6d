------------------------------- MODULE JsonHeap -------------------------------
(* JSON documents by reference. h.nd[i] is the i-th value made: a scalar, <<"a", values>>, <<"o", members>> or <<"dead">>. Values are numbered from 1;
   -1 true, -2 false, -3 null, -4 undefined are the shared constants, 0 is no value. A member is <<key, value, rank>>: members stand in the order of
   their ranks, the order among members of the same rank (several added by one merge) is not specified.
   Sharing is allowed, cycles are not. Ownership: the places in containers own; a value whose last place goes stays for the user to keep,
   deleting a value deletes what only it owned. *)
EXTENDS JsonText, Json
CONSTANTS NOBJ,      \* values that may be made
          WIDTH,     \* bound on members and elements
          KEYS, TEXTS, INTS,
          KINDS,     \* kinds to make: "o","a","s","i"
          OPS,       \* groups of operations: "set","arr","ren","conv","merge","del","gc","show","err"
          SIM, DEPTH
VARIABLES h, last, hist
vars == <<h, last, hist>>
view == h
N(hh) == Len(hh.nd)
Nd(hh, x) == hh.nd[x]
Const(x) == CASE x = -1 -> <<"t">> [] x = -2 -> <<"f">> [] x = -3 -> <<"z">> [] x = -4 -> <<"x">>
IsC(hh, x, k) == x \in 1..N(hh) /\ Nd(hh, x)[1] = k
Ok1(hh, x) == x \in {-1, -2, -3, -4} \/ (x \in 1..N(hh) /\ Nd(hh, x)[1] # "dead")
Obj(hh, x) == IsC(hh, x, "o")
Arr(hh, x) == IsC(hh, x, "a")
Kids(hh, x) == IF x < 1 \/ Nd(hh, x)[1] \notin {"a", "o"} THEN {} ELSE IF Nd(hh, x)[1] = "a" THEN {Nd(hh, x)[2][i] : i \in 1..Len(Nd(hh, x)[2])} ELSE {Nd(hh, x)[2][i][2] : i \in 1..Len(Nd(hh, x)[2])}
RECURSIVE Below(_, _)              \* everything reachable from a set of values, itself included
Below(hh, S) == LET T == S \cup UNION {Kids(hh, x) : x \in S} IN IF T = S THEN S ELSE Below(hh, T)
Held(hh, x) == \E y \in 1..N(hh) : x \in Kids(hh, y)
MIdx(m, k) == LET I == {i \in 1..Len(m) : m[i][1] = k} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
NextRank(m) == IF m = <<>> THEN 1 ELSE 1 + m[Len(m)][3]
MPut(m, k, v) == LET i == MIdx(m, k) IN IF i = 0 THEN Append(m, <<k, v, NextRank(m)>>) ELSE [m EXCEPT ![i] = <<k, v, m[i][3]>>]
Cut(s, i) == Take(s, i - 1) \o Drop(s, i)
Dense(m) == [i \in 1..Len(m) |-> <<m[i][1], m[i][2], 1 + Cardinality({j \in 1..(i - 1) : m[j][3] # m[j + 1][3]})>>]     \* ranks 1, 2, ...
MDel(m, k) == Dense(Cut(m, MIdx(m, k)))
MGet(m, k) == LET i == MIdx(m, k) IN IF i = 0 THEN 0 ELSE m[i][2]
Set(hh, x, c) == [hh EXCEPT !.nd[x] = <<Nd(hh, x)[1], c>>]
New(hh, c) == [hh EXCEPT !.nd = Append(@, c)]
\* values
RECURSIVE ValueOf(_, _)
ValueOf(hh, x) == IF x < 0 THEN Const(x) ELSE LET n == Nd(hh, x) IN
                  CASE n[1] = "a" -> <<"a", [i \in 1..Len(n[2]) |-> ValueOf(hh, n[2][i])]>>
                    [] n[1] = "o" -> <<"o", [i \in 1..Len(n[2]) |-> <<n[2][i][1], ValueOf(hh, n[2][i][2])>>]>>
                    [] OTHER -> n
Ordered(hh, x) == \A y \in Below(hh, {x}) : Obj(hh, y) => \A i \in 1..(Len(Nd(hh, y)[2]) - 1) : Nd(hh, y)[2][i][3] # Nd(hh, y)[2][i + 1][3]
\* the decimal text of an integer
IntText(i) == IF i < 0 THEN <<45>> \o DecN(-i) ELSE DecN(i)
IntDouble(i) == LET t == IntText(i) u == IF i < 0 THEN Drop(t, 1) ELSE t IN <<"d", Dbl([j \in 1..Len(u) |-> u[j] - 48], 0, IF i < 0 THEN 1 ELSE 0)>>
\* a decimal string (what converts to an integer), leading zeros dropped
IsDecimal(t) == LET u == IF At(t, 1) = 45 THEN Drop(t, 1) ELSE t IN u # <<>> /\ \A i \in 1..Len(u) : IsDigit(u[i])
ToInt(t) == LET neg == At(t, 1) = 45 u == IF neg THEN Drop(t, 1) ELSE t z == PrefixIn(u, {48}) v == IF z = Len(u) THEN <<48>> ELSE Drop(u, z) IN
            IF ~NatLeq(v, IF neg THEN MinI64 ELSE MaxI64) THEN <<>> ELSE IF neg /\ v # <<48>> THEN <<45>> \o v ELSE v
\* deletion of a value that is in no container: what only it held goes with it
RECURSIVE Kill(_, _)
Kill(hh, S) == IF S = {} THEN hh ELSE LET x == CHOOSE x \in S : TRUE
                                          h1 == [hh EXCEPT !.nd[x] = <<"dead">>] IN
               Kill(h1, (S \ {x}) \cup {y \in Kids(hh, x) : y > 0 /\ ~Held(h1, y)})
\* ---- merging d and s: the pairs of containers that meet
RECURSIVE Pairs(_, _, _)
Pairs(hh, d, s) == IF Arr(hh, d) /\ Arr(hh, s) THEN <<<<d, s>>>>
                   ELSE IF Obj(hh, d) /\ Obj(hh, s)
                   THEN LET m == Nd(hh, s)[2]
                            P == [i \in 1..Len(m) |-> LET o == MGet(Nd(hh, d)[2], m[i][1]) IN IF o = 0 THEN <<>> ELSE Pairs(hh, o, m[i][2])] IN <<<<d, s>>>> \o Cat(P, 1, Len(P))
                   ELSE <<>>
\* each destination is touched once, and is no part of the source
MergeLegal(hh, d, s) == LET P == Pairs(hh, d, s) D == {P[i][1] : i \in 1..Len(P)} IN Cardinality(D) = Len(P) /\ D \cap Below(hh, {s}) = {}
RECURSIVE Join(_, _, _)
JoinMembers(hh, d, s) == LET m == Nd(hh, d)[2]
                             src == Nd(hh, s)[2]
                             r == NextRank(m)
                             \* members both have: replaced unless they are containers of the same kind (those are joined below)
                             both == [i \in 1..Len(m) |-> LET v == MGet(src, m[i][1]) IN
                                       IF v = 0 \/ (Obj(hh, v) /\ Obj(hh, m[i][2])) \/ (Arr(hh, v) /\ Arr(hh, m[i][2])) THEN m[i] ELSE <<m[i][1], v, m[i][3]>>]
                             new == SelectSeq(src, LAMBDA x : MIdx(m, x[1]) = 0) IN
                         Set(hh, d, both \o [i \in 1..Len(new) |-> <<new[i][1], new[i][2], r>>])
Join(hh, P, i) == IF i > Len(P) THEN hh
                  ELSE LET d == P[i][1] s == P[i][2] IN
                       Join(IF Arr(hh, d) THEN Set(hh, d, Nd(hh, d)[2] \o Nd(hh, s)[2]) ELSE JoinMembers(hh, d, s), P, i + 1)
Merge(hh, d, s) == Join(hh, Pairs(hh, d, s), 1)
Meets(hh, d, s) == (Arr(hh, d) /\ Arr(hh, s)) \/ (Obj(hh, d) /\ Obj(hh, s))

Pattern(i) == IF (i * 7) % 5 < 2 THEN -1 ELSE -2
Key(i) == <<107>> \o DecN(i)
MPutAll(m, l) == LET K == {m[i][1] : i \in 1..Len(m)} r == NextRank(m) IN
                 IF \A i \in 1..Len(l) : l[i][1] \notin K THEN m \o [i \in 1..Len(l) |-> <<l[i][1], l[i][2], r - 1 + i>>]
                 ELSE Fold(LAMBDA q, x : MPut(q, x[1], x[2]), m, l)
\* ---- operations: the effect; ok: the program may do this
Res(hh, r, ok) == [h |-> hh, r |-> r, ok |-> ok]
Free(hh, v, c) == Ok1(hh, v) /\ c \notin Below(hh, {v})          \* v may go into container c
PutM(hh, o, k, v) == Res(Set(hh, o, MPut(Nd(hh, o)[2], k, v)), 0, Obj(hh, o) /\ Free(hh, v, o))
PutNew(hh, o, k, c) == LET h1 == New(hh, c) IN Res(Set(h1, o, MPut(Nd(hh, o)[2], k, N(h1))), 0, Obj(hh, o))
Elems2(hh, v) == IF Arr(hh, v) THEN Nd(hh, v)[2] ELSE <<v>>
Eff(hh, a) ==
  LET op == a[1] C == Nd(hh, a[2])[2] IN
  CASE op = "mk" -> LET w == a[2] IN
         Res(New(hh, CASE w \in {"o", "mj"} -> <<"o", <<>>>> [] w \in {"a", "lj"} -> <<"a", <<>>>> [] w \in {"i", "u"} -> <<w, IntText(a[3])>>
                       [] w = "d" -> IntDouble(a[3]) [] w \in {"s", "sf"} -> <<"s", a[3]>>), N(hh) + 1, w # "u" \/ a[3] >= 0)
    [] op = "kv" -> Res(New(hh, <<"o", <<<<a[3], a[4], 1>>>>>>), N(hh) + 1, Ok1(hh, a[4]))
    [] op = "set" -> PutM(hh, a[2], a[3], a[4])
    [] op = "setn" -> PutM(hh, a[2], a[3], -3)
    [] op = "setb" -> PutM(hh, a[2], a[3], IF a[4] = 1 THEN -1 ELSE -2)
    [] op \in {"sets", "setf"} -> PutNew(hh, a[2], a[3], <<"s", a[4]>>)
    [] op = "seti" -> PutNew(hh, a[2], a[3], <<"i", IntText(a[4])>>)
    [] op = "setu" -> PutNew(hh, a[2], a[3], <<"u", IntText(a[4])>>)
    [] op = "setd" -> PutNew(hh, a[2], a[3], IntDouble(a[4]))
    [] op = "app" -> LET o == MGet(C, a[3]) v == a[4] IN
         IF o = 0 THEN PutM(hh, a[2], a[3], v)
         ELSE IF Arr(hh, o) THEN Res(Set(hh, o, Nd(hh, o)[2] \o Elems2(hh, v)), 0, Ok1(hh, v) /\ (o \notin Below(hh, {v}) \/ v = o))
         ELSE LET h1 == New(hh, <<"a", <<o>> \o Elems2(hh, v)>>) IN Res(Set(h1, a[2], MPut(C, a[3], N(h1))), 0, Free(hh, v, a[2]))
    [] op = "ren" -> (IF MIdx(C, a[3]) = 0 THEN Res(hh, 0, TRUE) ELSE Res(Set(hh, a[2], MPut(MDel(C, a[3]), a[4], MGet(C, a[3]))), 1, TRUE))
    [] op = "rem" -> Res(IF MIdx(C, a[3]) = 0 THEN hh ELSE Set(hh, a[2], MDel(C, a[3])), 0, TRUE)
    [] op = "conv" -> LET o == MGet(C, a[3]) IN
         IF o < 1 THEN Res(hh, 0, TRUE) ELSE IF Nd(hh, o)[1] = "i" THEN Res(hh, 1, TRUE)
         ELSE IF Nd(hh, o)[1] # "s" THEN Res(hh, 0, TRUE)
         ELSE IF ~IsDecimal(Nd(hh, o)[2]) THEN Res(hh, 0, TRUE)
         ELSE LET t == ToInt(Nd(hh, o)[2]) IN
              IF t = <<>> THEN Res(hh, 0, TRUE)
              ELSE LET h1 == New(hh, <<"i", t>>) h2 == Set(h1, a[2], MPut(C, a[3], N(h1))) IN Res(IF Held(h2, o) THEN h2 ELSE Kill(h2, {o}), 1, ~hh.gcd)
    [] op = "err" -> (IF MIdx(C, <<101, 114, 114, 111, 114>>) # 0 THEN Res(hh, 0, Obj(hh, a[2])) ELSE PutNew(hh, a[2], <<101, 114, 114, 111, 114>>, <<"s", a[3]>>))
    [] op = "errnull" -> Res(hh, 1, TRUE)
    [] op = "nulls" -> Res(hh, 0, Obj(hh, a[2]))
    [] op = "get" -> Res(hh, MGet(C, a[3]), Obj(hh, a[2]))
    [] op = "aget" -> Res(hh, IF a[3] \in 0..(Len(C) - 1) THEN C[a[3] + 1] ELSE 0, Arr(hh, a[2]))
    [] op = "ains" -> (IF a[3] \notin 0..Len(C) THEN Res(hh, 0, FALSE) ELSE Res(Set(hh, a[2], Take(C, a[3]) \o <<a[4]>> \o Drop(C, a[3])), 0, Arr(hh, a[2]) /\ Free(hh, a[4], a[2])))
    [] op = "aapp" -> Res(Set(hh, a[2], Append(C, a[3])), 0, Arr(hh, a[2]) /\ Free(hh, a[3], a[2]))
    [] op = "aappb" -> Res(Set(hh, a[2], Append(C, IF a[3] = 1 THEN -1 ELSE -2)), 0, Arr(hh, a[2]))
    [] op \in {"aapps", "aappf"} -> LET h1 == New(hh, <<"s", a[3]>>) IN Res(Set(h1, a[2], Append(C, N(h1))), 0, Arr(hh, a[2]))
    [] op = "acat" -> Res(Set(hh, a[2], C \o Nd(hh, a[3])[2]), 0, Arr(hh, a[2]) /\ Arr(hh, a[3]) /\ (a[2] = a[3] \/ a[2] \notin Below(hh, {a[3]})))
    \* many at once: n truth values appended; n members set; n members removed
    [] op = "aappn" -> Res(Set(hh, a[2], C \o [i \in 1..a[3] |-> Pattern(i + a[4])]), 0, Arr(hh, a[2]))
    [] op = "setbn" -> Res(Set(hh, a[2], MPutAll(C, [i \in 1..a[4] |-> <<Key(a[3] + i), Pattern(a[3] + 2 * i)>>])), 0, Obj(hh, a[2]))
    [] op = "remn" -> (LET gone == {Key(a[3] + i * a[4]) : i \in 1..a[5]} m == SelectSeq(C, LAMBDA x : x[1] \notin gone) IN Res(Set(hh, a[2], Dense(m)), 0, Obj(hh, a[2])))
    [] op = "arem" -> Res(IF a[3] \in 0..(Len(C) - 1) THEN Set(hh, a[2], Cut(C, a[3] + 1)) ELSE hh, 0, Arr(hh, a[2]))
    [] op = "listify" -> (IF Arr(hh, a[2]) THEN Res(hh, a[2], TRUE) ELSE Res(New(hh, <<"a", <<a[2]>>>>), N(hh) + 1, Obj(hh, a[2]) \/ IsC(hh, a[2], "s")))
    [] op = "merge" -> (IF Meets(hh, a[2], a[3]) THEN Res(Merge(hh, a[2], a[3]), 1, MergeLegal(hh, a[2], a[3])) ELSE Res(hh, 0, Ok1(hh, a[2]) /\ Ok1(hh, a[3])))
    \* mor dest src: with no destination the source is it (result 1 + 10 * source)
    [] op = "mor" -> (IF a[2] = 0 THEN Res(hh, 1 + 10 * a[3], a[3] > 0 /\ Ok1(hh, a[3]))
                      ELSE IF Meets(hh, a[2], a[3]) THEN Res(Merge(hh, a[2], a[3]), 1, MergeLegal(hh, a[2], a[3])) ELSE Res(hh, 0, Ok1(hh, a[2]) /\ Ok1(hh, a[3])))
    [] op = "show" -> (IF HasDouble(ValueOf(hh, a[2])) \/ ~Ordered(hh, a[2]) THEN Res(hh, 0, FALSE) ELSE Res(hh, Compact(ValueOf(hh, a[2])), TRUE))
    \* a deleted value must not be in a container, nor be a root
    [] op = "del" -> Res(Kill(hh, {a[2]}), 0, ~Held(hh, a[2]) /\ a[2] \notin hh.roots /\ ~hh.gcd)
    [] op = "root" -> Res([hh EXCEPT !.roots = @ \cup {a[2]}], 0, TRUE)
    [] op = "unroot" -> Res([hh EXCEPT !.roots = @ \ {a[2]}], 0, a[2] \in hh.roots)
    [] op = "gc" -> LET R == Below(hh, hh.roots) IN Res([hh EXCEPT !.gcd = TRUE, !.nd = [x \in 1..N(hh) |-> IF x \in R THEN @[x] ELSE <<"dead">>]], 0, TRUE)
RootsOk(hh) == \A x \in hh.roots : Nd(hh, x)[1] # "dead"
Legal(x) == /\ x.ok /\ N(x.h) <= NOBJ /\ RootsOk(x.h)
            /\ \A y \in 1..N(x.h) : Nd(x.h, y)[1] \in {"a", "o"} => Len(Nd(x.h, y)[2]) <= WIDTH
\* the values an operation names must be alive, and be of the kind it needs
ObjOps == {"setbn", "remn", "set", "setn", "setb", "sets", "setf", "seti", "setu", "setd", "app", "ren", "rem", "conv", "err", "nulls", "get"}
ArrOps == {"aappn", "aget", "ains", "aapp", "aappb", "aapps", "aappf", "acat", "arem"}
Named(hh, a) == CASE a[1] \in ObjOps -> Obj(hh, a[2]) [] a[1] \in ArrOps -> Arr(hh, a[2]) /\ (a[1] = "acat" => Arr(hh, a[3]))
                  [] a[1] \in {"show", "del", "root", "unroot", "listify"} -> a[2] > 0 /\ Ok1(hh, a[2])
                  [] a[1] = "merge" -> Ok1(hh, a[2]) /\ Ok1(hh, a[3]) [] a[1] = "mor" -> (a[2] = 0 \/ Ok1(hh, a[2])) /\ Ok1(hh, a[3])
                  [] OTHER -> TRUE
Values(hh, a) == CASE a[1] \in {"set", "app", "kv", "ains"} -> Ok1(hh, a[4]) [] a[1] = "aapp" -> Ok1(hh, a[3]) [] OTHER -> TRUE
Able(hh, a) == (Named(hh, a) /\ Values(hh, a)) = TRUE /\ (LET x == Eff(hh, a) IN x.ok = TRUE /\ Legal(x)) = TRUE

\* ---- observation
Obs(hh) == hh.nd
H0 == [nd |-> <<>>, roots |-> {}, gcd |-> FALSE]
Init == h = H0 /\ hist = <<>> /\ last = [a |-> <<"init">>, e |-> [r |-> 0, o |-> <<>>]]
Reset == h' = H0 /\ hist' = <<>> /\ last' = [a |-> <<"reset">>, e |-> [r |-> 0, o |-> <<>>]]
Apply(a) == LET x == Eff(h, a) IN h' = x.h /\ last' = [a |-> a, e |-> [r |-> x.r, o |-> Obs(x.h)]] /\ hist' = IF SIM THEN Append(hist, last') ELSE hist
Do(a) == Apply(a)
\* observed members (key, value) agree with the specified ones, in an order their ranks allow
SameUpToRank(m, g) == /\ \A gi \in 1..Len(g) : \E gj \in 1..Len(m) : m[gj][1] = g[gi][1] /\ m[gj][2] = g[gi][2] /\ m[gj][3] = m[gi][3]
                      /\ \A gj \in 1..Len(m) : \E gi \in 1..Len(g) : g[gi][1] = m[gj][1]
SameMembers(m, g) == /\ Len(g) = Len(m)
                     /\ (\A gi \in 1..Len(g) : m[gi][1] = g[gi][1] /\ m[gi][2] = g[gi][2]) \/ SameUpToRank(m, g)
Accept(x, g) == /\ g.r = x.r /\ Len(g.o) = Len(x.o)
                /\ \A i \in 1..Len(x.o) : IF x.o[i][1] = "o" THEN g.o[i][1] = "o" /\ SameMembers(x.o[i][2], g.o[i][2]) ELSE g.o[i] = x.o[i]

\* ---- operations offered
Xs == {x \in 1..N(h) : Nd(h, x)[1] # "dead"}
Os == {x \in Xs : Obj(h, x)}
As == {x \in Xs : Arr(h, x)}
Vs == Xs \cup (IF SIM THEN {-1, -2, -3} ELSE {-1})
Small == IF TEXTS = {} THEN {} ELSE {CHOOSE t \in TEXTS : TRUE}
Mk == {<<"mk", k, IF k \in {"o", "a"} THEN 0 ELSE t>> : k \in KINDS \cap {"o", "a"}, t \in {0}} \cup {<<"mk", "s", t>> : t \in IF "s" \in KINDS THEN TEXTS ELSE {}}
      \cup {<<"mk", "i", t>> : t \in IF "i" \in KINDS THEN INTS ELSE {}} \cup {<<"kv", 0, k, v>> : k \in IF "kv" \in KINDS THEN KEYS ELSE {}, v \in Vs}
SetOps == {<<"set", o, k, v>> : o \in Os, k \in KEYS, v \in Vs} \cup {<<"rem", o, k>> : o \in Os, k \in KEYS} \cup {<<"app", o, k, v>> : o \in Os, k \in KEYS, v \in Vs}
RenOps == {<<"ren", o, k, j>> : o \in Os, k \in KEYS, j \in KEYS}
ConvOps == {<<"sets", o, k, t>> : o \in Os, k \in KEYS, t \in TEXTS} \cup {<<"conv", o, k>> : o \in Os, k \in KEYS} \cup {<<"set", o, k, v>> : o \in Os, k \in KEYS, v \in Xs}
ArrOps2 == {<<"ains", x, i, v>> : x \in As, i \in 0..(WIDTH - 1), v \in Vs} \cup {<<"aapp", x, v>> : x \in As, v \in Vs} \cup {<<"arem", x, i>> : x \in As, i \in -1..WIDTH}
           \cup {<<"acat", x, y>> : x \in As, y \in As} \cup {<<"aget", x, i>> : x \in As, i \in -1..WIDTH}
MergeOps == {<<"merge", x, y>> : x \in Vs, y \in Vs} \cup {<<"mor", x, y>> : x \in Xs \cup {0}, y \in Xs}
ErrOps == {<<"err", o, t>> : o \in Os, t \in TEXTS} \cup {<<"errnull">>} \cup {<<"nulls", o>> : o \in Os} \cup {<<"listify", x>> : x \in Xs}
AllOps == Mk \cup (IF "set" \in OPS THEN SetOps ELSE {}) \cup (IF "ren" \in OPS THEN RenOps ELSE {}) \cup (IF "conv" \in OPS THEN ConvOps ELSE {})
          \cup (IF "arr" \in OPS THEN ArrOps2 ELSE {}) \cup (IF "merge" \in OPS THEN MergeOps ELSE {}) \cup (IF "err" \in OPS THEN ErrOps ELSE {})
          \cup (IF "del" \in OPS THEN {<<"del", x>> : x \in Xs} ELSE {})
\* one random operation (simulation)
R(S) == IF S = {} THEN 0 ELSE RandomElement(S)
K == R(KEYS)
GenMk(j) == CASE j \in {1, 2} -> <<"mk", "o", 0>> [] j \in {3, 4} -> <<"mk", "a", R({0, 1, 2, 7})>> [] j = 5 -> <<"mk", "mj", 0>> [] j = 6 -> <<"mk", "lj", R({0, 1, 5})>>
              [] j = 7 -> <<"mk", "s", R(TEXTS)>> [] j = 8 -> <<"mk", "sf", R(TEXTS)>> [] j = 9 -> <<"mk", "i", R(INTS)>> [] j = 10 -> <<"mk", "u", R(INTS)>> [] j = 11 -> <<"mk", "d", R(INTS)>>
              [] j = 12 -> <<"kv", 0, K, R(Vs)>>
GenUse(j) == CASE j \in {1, 2, 3} -> <<"set", R(Os), K, R(Vs)>> [] j \in {4, 5, 6} -> <<"app", R(Os), K, R(Vs)>> [] j = 7 -> <<"setn", R(Os), K>> [] j = 8 -> <<"setb", R(Os), K, R(0..1)>>
              [] j = 9 -> <<"sets", R(Os), K, R(TEXTS)>> [] j = 10 -> <<"setf", R(Os), K, R(TEXTS)>> [] j = 11 -> <<"seti", R(Os), K, R(INTS)>> [] j = 12 -> <<"setu", R(Os), K, R({i \in INTS : i >= 0})>>
              [] j = 13 -> <<"setd", R(Os), K, R(INTS)>> [] j \in {14, 15} -> <<"ren", R(Os), K, K>> [] j \in {16, 17} -> <<"rem", R(Os), K>> [] j \in {18, 19} -> <<"conv", R(Os), K>>
              [] j = 20 -> <<"err", R(Os), R(TEXTS)>> [] j = 21 -> <<"nulls", R(Os)>> [] j = 22 -> <<"errnull">> [] j = 23 -> <<"get", R(Os), K>> [] j = 24 -> <<"listify", R(Xs)>>
              [] j \in {25, 26} -> <<"ains", R(As), R(0..3), R(Vs)>> [] j \in {27, 28, 29} -> <<"aapp", R(As), R(Vs)>> [] j = 30 -> <<"aappb", R(As), R(0..1)>> [] j = 31 -> <<"aapps", R(As), R(TEXTS)>>
              [] j = 32 -> <<"aappf", R(As), R(TEXTS)>> [] j \in {33, 34} -> <<"acat", R(As), R(As)>> [] j \in {35, 36} -> <<"arem", R(As), R(-1..6)>> [] j = 37 -> <<"aget", R(As), R(-1..6)>>
              [] j \in {38, 39, 40, 41, 42} -> <<"merge", R(Os), R(Os)>> [] j = 43 -> <<"merge", R(Vs), R(Vs)>> [] j = 44 -> <<"mor", R(Xs \cup {0}), R(Xs)>> [] j = 45 -> <<"merge", R(As), R(As)>>
              [] j \in {46, 47} -> <<"show", R(Xs)>> [] j = 48 -> <<"del", R(Xs)>> [] j = 49 -> <<"root", R(Xs)>> [] j = 50 -> <<"unroot", R(h.roots)>> [] j = 51 -> <<"gc">>
Group(o) == CASE o \in {"merge", "mor"} -> "merge" [] o = "del" -> "del" [] o \in {"root", "unroot", "gc"} -> "gc" [] o = "conv" -> "conv" [] OTHER -> ""
GenOps == [i \in 1..14 |-> IF RandomElement(1..4) = 1 THEN GenMk(RandomElement(1..12)) ELSE GenUse(RandomElement(1..51))]
Args(a) == CASE a[1] = "mk" -> a[2] # "u" \/ a[3] >= 0 [] a[1] = "kv" -> TRUE [] a[1] \in {"errnull", "gc"} -> TRUE [] a[1] \in {"mor"} -> a[3] # 0
             [] a[1] = "acat" -> a[2] # 0 /\ a[3] # 0 [] a[1] = "merge" -> a[2] # 0 /\ a[3] # 0 [] OTHER -> a[2] # 0
Skip == UNCHANGED <<h, hist>> /\ last' = [a |-> <<"nop">>, e |-> [r |-> 0, o |-> <<>>]]
Next == IF ~SIM THEN \E a \in AllOps : Able(h, a) /\ Apply(a)
        ELSE \E g \in {GenOps} :
             LET I == {i \in 1..14 : IF ~Args(g[i]) THEN FALSE ELSE IF Group(g[i][1]) # "" /\ Group(g[i][1]) \notin OPS THEN FALSE ELSE Able(h, g[i])} IN
             IF I = {} THEN Skip ELSE \E i \in {CHOOSE i \in I : \A j \in I : i <= j} : Apply(g[i])
Spec == Init /\ [][Next]_vars

\* ---- what the specification itself must satisfy
Acyclic == \A x \in 1..N(h) : x \notin Below(h, Kids(h, x))
Whole == \A x \in Xs : \A y \in Kids(h, x) : Ok1(h, y)
UniqueKeys == \A x \in Os : \A i, j \in 1..Len(Nd(h, x)[2]) : Nd(h, x)[2][i][1] = Nd(h, x)[2][j][1] => i = j
Ranked == \A x \in Os : \A i \in 1..(Len(Nd(h, x)[2]) - 1) : Nd(h, x)[2][i][3] <= Nd(h, x)[2][i + 1][3]
\* merging, said of values: members of both objects, joined where both have them
RECURSIVE Plain(_)                 \* a value with its members as a set
Plain(v) == CASE v[1] = "a" -> <<"a", [i \in 1..Len(v[2]) |-> Plain(v[2][i])]>> [] v[1] = "o" -> <<"o", {<<v[2][i][1], Plain(v[2][i][2])>> : i \in 1..Len(v[2])}>> [] OTHER -> v
RECURSIVE MergeV(_, _)
MergeV(d, s) == IF d[1] = "a" /\ s[1] = "a" THEN <<"a", d[2] \o s[2]>>
                ELSE IF d[1] = "o" /\ s[1] = "o"
                THEN LET dk == {m[1] : m \in d[2]} sk == {m[1] : m \in s[2]}
                         Of(o, k) == (CHOOSE m \in o[2] : m[1] = k)[2] IN
                     <<"o", {<<k, IF k \notin sk THEN Of(d, k) ELSE IF k \notin dk THEN Of(s, k) ELSE MergeV(Of(d, k), Of(s, k))>> : k \in dk \cup sk}>>
                ELSE s
MergeLaw == [][(last'.a[1] = "merge" /\ last'.e.r = 1) => LET d == last'.a[2] s == last'.a[3] IN
                 /\ Plain(ValueOf(h', d)) = MergeV(Plain(ValueOf(h, d)), Plain(ValueOf(h, s))) /\ ValueOf(h', s) = ValueOf(h, s)]_vars
FailLaw == [][(last'.a[1] \in {"merge", "conv", "ren"} /\ last'.e.r = 0) => h' = h]_vars
\* an edit changes only the container it names (or, for app, the array found there)
FrameLaw == [][\A x \in 1..N(h) : (last'.a[1] \notin {"merge", "mor", "app", "del", "gc", "reset", "conv"} /\ (IF last'.a[1] \in {"mk", "errnull"} THEN TRUE ELSE last'.a[2] # x)) => Nd(h', x) = Nd(h, x)]_vars
EmitGraph == PrintT(ToJson([s |-> h, a |-> last'.a, e |-> last'.e, t |-> h']))
EmitSim == TLCGet("level") < DEPTH \/ PrintT(ToJson([ops |-> hist']))
=============================================================================

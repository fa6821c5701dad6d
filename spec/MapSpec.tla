------------------------------- MODULE MapSpec -------------------------------
(* cee_map: two maps (0 and 1) with a common policy, and one enumeration snapshot that may be held.
   A map is the sequence of its bindings <<key class, value>> in insertion order. Key tokens k and k+10000 are two different
   key objects that compare equal (the driver uses a case-insensitive comparison); Cls is the class.
   `unord` marks a map into which a merge added two or more keys at once: the order among those is not specified, so
   from then on the insertion order of that map is not compared until it is empty again. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS KEYS, VALS, MAXLEN, POLS, NRC, FAM
VARIABLES made, pol, ms, unord, snap, last
vars == <<made, pol, ms, unord, snap, last>>
view == <<made, pol, ms, unord, snap>>
M == {0, 1}
Cls(k) == k % 10000
Third == 3      \* the value a merge function of kind "third" returns
Idx(s, k) == LET I == {i \in 1..Len(s) : s[i][1] = Cls(k)} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
Find(s, k) == IF Idx(s, k) = 0 THEN -1 ELSE s[Idx(s, k)][2]
Put(s, k, v) == IF Idx(s, k) = 0 THEN Append(s, <<Cls(k), v>>) ELSE [s EXCEPT ![Idx(s, k)] = <<Cls(k), v>>]
Del(s, k) == IF Idx(s, k) = 0 THEN s ELSE SubSeq(s, 1, Idx(s, k) - 1) \o SubSeq(s, Idx(s, k) + 1, Len(s))
Keys(s) == [i \in 1..Len(s) |-> s[i][1]]
Vals(s) == [i \in 1..Len(s) |-> s[i][2]]
Elems(s) == {s[i] : i \in 1..Len(s)}
Count(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
SortS(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
SortI(s) == FoldLeft(LAMBDA t, v : t \o [i \in 1..Count(s, v) |-> v], <<>>, SortS(Elems(s)))
SortK(s) == SortS(Elems(Keys(s)))          \* keys are distinct
SortP(s) == SetToSortSeq(Elems(s), LAMBDA x, y : x[1] < y[1])
IKeys(s, u) == IF u THEN SortK(s) ELSE Keys(s)
\* reference counts of the values 1..NRC: one held by the test, one per binding, one per place in a value snapshot
Rc(mm, sn) == [v \in 1..(IF pol' = 0 THEN NRC ELSE 0) |-> 1 + Count(Vals(mm[0]), v) + Count(Vals(mm[1]), v) + (IF sn[1] = 3 THEN Count(sn[2], v) ELSE 0)]
ObsM(s, u) == <<Len(s), IKeys(s, u), SortK(s), SortI(Vals(s)), SortP(s)>>
Obs(mm, u, sn) == <<ObsM(mm[0], u[0]), ObsM(mm[1], u[1]), IF sn[1] = 0 THEN <<>> ELSE sn[2], Rc(mm, sn)>>
Fin(a, r) == last' = [a |-> a, e |-> [r |-> r, o |-> Obs(ms', unord', snap')]]
Clear(u, mm) == [i \in M |-> u[i] /\ mm[i] # <<>>]

Init == made = FALSE /\ pol = 0 /\ ms = [i \in M |-> <<>>] /\ unord = [i \in M |-> FALSE] /\ snap = <<0, <<>>>> /\ last = [a |-> <<"init">>, e |-> [r |-> 0, o |-> 0]]
Reset == made' = FALSE /\ pol' = 0 /\ ms' = [i \in M |-> <<>>] /\ unord' = [i \in M |-> FALSE] /\ snap' = <<0, <<>>>> /\ last' = [a |-> <<"reset">>, e |-> [r |-> 0, o |-> 0]]
\* mk policy NRC
Mk(a) == ~made /\ made' = TRUE /\ pol' = a[2] /\ UNCHANGED <<ms, unord, snap>> /\ Fin(a, 0)
Upd(a, m, s, r) == /\ ms' = [ms EXCEPT ![m] = s] /\ unord' = Clear(unord, ms') /\ UNCHANGED <<made, pol, snap>> /\ Fin(a, r)
Same(a, r) == UNCHANGED <<made, pol, ms, unord, snap>> /\ Fin(a, r)
\* add map key value: the old value or -1
Add(a) == made /\ Upd(a, a[2], Put(ms[a[2]], a[3], a[4]), Find(ms[a[2]], a[3]))
FindOp(a) == made /\ Same(a, Find(ms[a[2]], a[3]))
Rem(a) == made /\ Upd(a, a[2], Del(ms[a[2]], a[3]), Find(ms[a[2]], a[3]))
\* many at once: the n keys k, k + d, ... of different classes. addn gives key k the value 1 + k % 9 and counts the old values, remn counts what it removed,
\* findn adds up the values it finds
KeysN(a) == [i \in 1..a[4] |-> a[3] + (i - 1) * a[5]]
\* (a bound variable holds a value, a LET inside a LAMBDA is computed again each time)
AddN(a) == LET s == ms[a[2]] K == KeysN(a)
               val(c) == 1 + ((c + a[3] - Cls(a[3])) % 9) IN      \* the keys are all below or all above 10000
           made /\ \E C \in {{Cls(K[i]) : i \in 1..Len(K)}}, old \in {Elems(Keys(s))} : \E new \in {SelectSeq(K, LAMBDA k : Cls(k) \notin old)} :
             Upd(a, a[2], [i \in 1..Len(s) |-> IF s[i][1] \in C THEN <<s[i][1], val(s[i][1])>> ELSE s[i]] \o [i \in 1..Len(new) |-> <<Cls(new[i]), 1 + (new[i] % 9)>>], Len(K) - Len(new))
RemN(a) == LET s == ms[a[2]] K == KeysN(a) IN
           made /\ \E C \in {{Cls(K[i]) : i \in 1..Len(K)}} : \E t \in {SelectSeq(s, LAMBDA b : b[1] \notin C)} : Upd(a, a[2], t, Len(s) - Len(t))
FindN(a) == LET s == ms[a[2]] K == KeysN(a) IN made /\ \E C \in {{Cls(K[i]) : i \in 1..Len(K)}} : Same(a, FoldLeft(LAMBDA x, b : IF b[1] \in C THEN x + b[2] ELSE x, 0, s))
\* ren map old new
Ren(a) == LET s == ms[a[2]] IN made /\
          IF Idx(s, a[3]) = 0 THEN Same(a, 0) ELSE Upd(a, a[2], Put(Del(s, a[3]), a[4], Find(s, a[3])), 1)
\* nullkey map: add, find, remove, rename from and to a NULL key
NullKey(a) == made /\ Same(a, <<-1, -1, -1, 0, 0>>)
\* nullmap: size, find, remove, iterate of a NULL map
NullMap(a) == made /\ Same(a, <<0, -1, -1, 0>>)
\* iter map n code: the n-th callback (from 0) returns code; r = <<returned, callbacks made>>
Iter(a) == LET n == Len(ms[a[2]]) IN made /\ Same(a, IF a[4] # 0 /\ a[3] < n THEN <<a[4], a[3] + 1>> ELSE <<0, n>>)
\* merge dest src how (0: no function, 1: keep old, 2: take new, 3: a third value)
Pick(how, old, new) == CASE how = 0 -> new [] how = 1 -> old [] how = 2 -> new [] how = 3 -> Third
\* a key of both gets the value picked, the others of s come after those of d (D, S: the keys of d and s)
MergeInto(d, s, how, D, S) ==
    [i \in 1..Len(d) |-> IF d[i][1] \in S THEN <<d[i][1], Pick(how, d[i][2], Find(s, d[i][1]))>> ELSE d[i]] \o SelectSeq(s, LAMBDA b : b[1] \notin D)
New(d, s) == Cardinality(Elems(Keys(s)) \ Elems(Keys(d)))
Canon(u, s) == IF u THEN SortP(s) ELSE s
Merge(a) == /\ made /\ a[2] # a[3]
            /\ LET d == ms[a[2]] s == ms[a[3]] u == unord[a[2]] \/ New(d, s) >= 2 IN
               /\ unord' = [unord EXCEPT ![a[2]] = u]
               /\ \E D \in {Elems(Keys(d))}, S \in {Elems(Keys(s))} : ms' = [ms EXCEPT ![a[2]] = Canon(u, MergeInto(d, s, a[4], D, S))]
            /\ UNCHANGED <<made, pol, snap>> /\ Fin(a, 0)
\* clone dest src: map dest is deleted and becomes a clone of src
CloneOp(a) == /\ made /\ a[2] # a[3]
            /\ ms' = [ms EXCEPT ![a[2]] = Canon(Len(ms[a[3]]) >= 2, ms[a[3]])] /\ unord' = [unord EXCEPT ![a[2]] = Len(ms[a[3]]) >= 2]
            /\ UNCHANGED <<made, pol, snap>> /\ Fin(a, 0)
\* delete and make again an empty map
Renew(a) == made /\ Upd(a, a[2], <<>>, 0)
\* snapkeys: 1 insertion ordered, 2 keys, 3 values; 0 drops the snapshot
SnapOf(kind, s, u) == CASE kind = 0 -> <<>> [] kind = 1 -> IKeys(s, u) [] kind = 2 -> SortK(s) [] kind = 3 -> SortI(Vals(s))
Snap(a) == made /\ snap' = <<a[3], SnapOf(a[3], ms[a[2]], unord[a[2]])>> /\ UNCHANGED <<made, pol, ms, unord>> /\ Fin(a, 0)

Do(a) == CASE a[1] = "mk" -> Mk(a) [] a[1] = "add" -> Add(a) [] a[1] = "find" -> FindOp(a) [] a[1] = "rem" -> Rem(a) [] a[1] = "ren" -> Ren(a)
           [] a[1] = "nullkey" -> NullKey(a) [] a[1] = "nullmap" -> NullMap(a) [] a[1] = "iter" -> Iter(a) [] a[1] = "merge" -> Merge(a)
           [] a[1] = "clone" -> CloneOp(a) [] a[1] = "renew" -> Renew(a) [] a[1] = "snap" -> Snap(a)
           [] a[1] = "addn" -> AddN(a) [] a[1] = "remn" -> RemN(a) [] a[1] = "findn" -> FindN(a)
MM == IF FAM = "two" THEN {0, 1} ELSE {0}
Base == {<<"mk", p, NRC>> : p \in POLS} \cup {<<"add", m, k, v>> : m \in MM, k \in KEYS, v \in VALS} \cup {<<"rem", m, k>> : m \in MM, k \in KEYS}
One == {<<"find", 0, k>> : k \in KEYS} \cup {<<"ren", 0, k, j>> : k \in KEYS, j \in KEYS} \cup {<<"nullkey", 0>>, <<"nullmap">>}
       \cup {<<"iter", 0, n, c>> : n \in 0..MAXLEN, c \in {0, 4}} \cup {<<"renew", 0>>}
SnapOps == {<<"snap", 0, k>> : k \in 0..3}
TwoOps == {<<"merge", d, 1 - d, h>> : d \in M, h \in 0..3} \cup {<<"clone", d, 1 - d>> : d \in M} \cup {<<"renew", d>> : d \in M}
Ops == Base \cup (CASE FAM = "one" -> One [] FAM = "snap" -> SnapOps [] FAM = "two" -> TwoOps)
Next == \E a \in Ops : Do(a)
Spec == Init /\ [][Next]_vars
\* invariants of the specification
Unique == \A m \in M : \A i, j \in 1..Len(ms[m]) : i # j => ms[m][i][1] # ms[m][j][1]
Bound == \A i \in M : Len(ms'[i]) <= MAXLEN
FunLaw == [][last'.a[1] = "add" => Find(ms'[last'.a[2]], last'.a[3]) = last'.a[4]]_vars
OthersLaw == [][\A m \in M : last'.a[1] \in {"add", "rem"} => \A k \in KEYS : (m # last'.a[2] \/ Cls(k) # Cls(last'.a[3])) => Find(ms'[m], k) = Find(ms[m], k)]_vars
EmitGraph == Bound /\ PrintT(ToJson([s |-> view, a |-> last'.a, e |-> last'.e, t |-> view']))
=============================================================================

------------------------------- MODULE SetSpec -------------------------------
(* cee_set: sets 0 and 1 with a common policy, and slot 2 which holds the result of a union or clone.
   Element tokens x and x+10000 are different objects that compare equal; a set maps each class to the stored object.
   In slot 2 only classes are observed. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS ELS, POLS, NRC, FAM
VARIABLES made, pol, ss, last
vars == <<made, pol, ss, last>>
view == <<made, pol, ss>>
SS == {0, 1, 2}
Cls(x) == x % 10000
Of(s, x) == {y \in s : Cls(y) = Cls(x)}
FindIn(s, x) == IF Of(s, x) = {} THEN -1 ELSE CHOOSE y \in Of(s, x) : TRUE
AddTo(s, x) == IF Of(s, x) = {} THEN s \cup {x} ELSE s
Union(s, t) == LET C == {Cls(x) : x \in s} IN s \cup {x \in t : Cls(x) \notin C}
Sorted(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
Shown(i, S) == IF i = 2 THEN {Cls(x) : x \in S} ELSE S
\* o: per set <<size, empty, values, iterated>>; reference counts of elements 1..NRC (the test holds one of each)
ObsS(i, S) == <<Cardinality(S), IF S = {} THEN 1 ELSE 0, Sorted(Shown(i, S)), Sorted(Shown(i, S))>>
Rc(t) == [x \in 1..(IF pol' = 0 THEN NRC ELSE 0) |-> 1 + Cardinality({i \in {0, 1} : x \in t[i]})]
Obs(t) == <<ObsS(0, t[0]), ObsS(1, t[1]), ObsS(2, t[2]), IF t[2] = {} THEN Rc(t) ELSE <<>>>>
Fin(a, r) == last' = [a |-> a, e |-> [r |-> r, o |-> Obs(ss')]]
Init == made = FALSE /\ pol = 0 /\ ss = [i \in SS |-> {}] /\ last = [a |-> <<"init">>, e |-> [r |-> 0, o |-> 0]]
Reset == made' = FALSE /\ pol' = 0 /\ ss' = [i \in SS |-> {}] /\ last' = [a |-> <<"reset">>, e |-> [r |-> 0, o |-> 0]]
Mk(a) == ~made /\ made' = TRUE /\ pol' = a[2] /\ UNCHANGED ss /\ Fin(a, 0)
Upd(a, i, S, r) == made /\ ss' = [ss EXCEPT ![i] = S] /\ UNCHANGED <<made, pol>> /\ Fin(a, r)
Same(a, r) == made /\ UNCHANGED <<made, pol, ss>> /\ Fin(a, r)
Shw(i, x) == IF i = 2 /\ x # -1 THEN Cls(x) ELSE x
Add(a) == Upd(a, a[2], AddTo(ss[a[2]], a[3]), 0)
Find(a) == Same(a, Shw(a[2], FindIn(ss[a[2]], a[3])))
Rem(a) == Upd(a, a[2], ss[a[2]] \ Of(ss[a[2]], a[3]), Shw(a[2], FindIn(ss[a[2]], a[3])))
\* many at once: the n elements k, k + d, ... of different classes; remn counts what it removed, findn what it found
ElsN(a) == {a[3] + (i - 1) * a[5] : i \in 1..a[4]}
ClsN(a) == {Cls(x) : x \in ElsN(a)}
AddN(a) == Upd(a, a[2], Union(ss[a[2]], ElsN(a)), 0)
RemN(a) == LET C == ClsN(a) t == {x \in ss[a[2]] : Cls(x) \notin C} IN Upd(a, a[2], t, Cardinality(ss[a[2]]) - Cardinality(t))
FindN(a) == LET C == ClsN(a) IN Same(a, Cardinality({x \in ss[a[2]] : Cls(x) \in C}))
ClearOp(a) == Upd(a, a[2], {}, 0)
\* union i j: slot 2 becomes the union (its previous set is deleted)
UnionOp(a) == Upd(a, 2, Union(ss[a[2]], ss[a[3]]), 0)
CloneOp(a) == Upd(a, 2, ss[a[2]], 0)
\* free slot 2
Drop(a) == Upd(a, 2, {}, 0)
\* find, remove, size, empty, iterate on a NULL set
Null(a) == Same(a, <<-1, -1, 0, 1, 0>>)
Do(a) == CASE a[1] = "mk" -> Mk(a) [] a[1] = "add" -> Add(a) [] a[1] = "find" -> Find(a) [] a[1] = "rem" -> Rem(a) [] a[1] = "clear" -> ClearOp(a)
           [] a[1] = "union" -> UnionOp(a) [] a[1] = "clone" -> CloneOp(a) [] a[1] = "drop" -> Drop(a) [] a[1] = "null" -> Null(a)
           [] a[1] = "addn" -> AddN(a) [] a[1] = "remn" -> RemN(a) [] a[1] = "findn" -> FindN(a)
II == IF FAM = "one" THEN {0} ELSE {0, 1}
JJ == IF FAM = "one" THEN {0} ELSE SS
Ops == {<<"mk", p, NRC>> : p \in POLS} \cup {<<"add", i, x>> : i \in II, x \in ELS} \cup {<<"rem", i, x>> : i \in JJ, x \in ELS}
       \cup {<<"clear", i>> : i \in JJ} \cup {<<"find", i, x>> : i \in JJ, x \in ELS} \cup {<<"null">>}
       \cup (IF FAM = "one" THEN {} ELSE {<<"union", i, j>> : i \in II, j \in II} \cup {<<"clone", i>> : i \in II} \cup {<<"drop">>, <<"add", 2, 1>>})
Next == \E a \in Ops : Do(a)
Spec == Init /\ [][Next]_vars
OncePerClass == \A i \in SS : \A x, y \in ss[i] : x # y => Cls(x) # Cls(y)
MemberLaw == [][last'.a[1] = "add" => Of(ss'[last'.a[2]], last'.a[3]) # {}]_vars
OperandsLaw == [][last'.a[1] \in {"union", "clone"} => ss'[0] = ss[0] /\ ss'[1] = ss[1]]_vars
EmitGraph == PrintT(ToJson([s |-> <<made, pol, Sorted(ss[0]), Sorted(ss[1]), Sorted(ss[2])>>, a |-> last'.a, e |-> last'.e,
                            t |-> <<made', pol', Sorted(ss'[0]), Sorted(ss'[1]), Sorted(ss'[2])>>]))
=============================================================================

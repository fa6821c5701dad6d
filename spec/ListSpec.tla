------------------------------ MODULE ListSpec ------------------------------
(* cee_list: two lists (index 0 and 1) made with the same policy and initial capacity.
   The abstract state of a list is a sequence. `cap` is the capacity a doubling implementation would have; it is part of
   the state only so that the emitted behaviours reach every relation of size and capacity; nothing compares it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS MAXLEN, VALS, CAPS, POLS
VARIABLES made, pol, ls, cap, last
vars == <<made, pol, ls, cap, last>>
view == <<made, pol, ls, cap>>
L == {0, 1}
Grow(c, n) == LET RECURSIVE G(_) G(x) == IF x >= n THEN x ELSE G(IF x = 0 THEN 1 ELSE 2 * x) IN G(c)
Obs(s) == <<s[0], s[1]>>
Fin(a, r) == last' = [a |-> a, e |-> [r |-> r, o |-> IF made' THEN Obs(ls') ELSE <<>>]]

Init == made = FALSE /\ pol = 0 /\ ls = [i \in L |-> <<>>] /\ cap = [i \in L |-> 0] /\ last = [a |-> <<"init">>, e |-> [r |-> 0, o |-> <<>>]]

\* mk policy capacity
Mk(a) == /\ ~made /\ made' = TRUE /\ pol' = a[2] /\ cap' = [i \in L |-> a[3]] /\ ls' = [i \in L |-> <<>>] /\ Fin(a, 0)
\* app list value
App(a) == /\ made /\ UNCHANGED <<made, pol>>
          /\ ls' = [ls EXCEPT ![a[2]] = Append(@, a[3])]
          /\ cap' = [cap EXCEPT ![a[2]] = Grow(@, Len(ls[a[2]]) + 1)]
          /\ Fin(a, 0)
InsertAt(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
DropAt(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i + 2, Len(s))
\* ins list index value, 0 <= index <= size
Ins(a) == /\ made /\ UNCHANGED <<made, pol>>
          /\ a[3] >= 0 /\ a[3] <= Len(ls[a[2]])
          /\ ls' = [ls EXCEPT ![a[2]] = InsertAt(@, a[3], a[4])]
          /\ cap' = [cap EXCEPT ![a[2]] = Grow(@, Len(ls[a[2]]) + 1)]
          /\ Fin(a, 0)
\* rem list index, index >= 0
Rem(a) == /\ made /\ UNCHANGED <<made, pol, cap>> /\ a[3] >= 0
          /\ LET s == ls[a[2]] IN
             IF a[3] < Len(s) THEN /\ ls' = [ls EXCEPT ![a[2]] = DropAt(s, a[3])] /\ Fin(a, 1)
             ELSE /\ UNCHANGED ls /\ Fin(a, 0)
\* many at once. appn list n v: append v, v + 1, ... (modulo 4000); insn list index n v: insert these, each at the same index; remn list index n: remove there n times
Vals(v, n) == [j \in 1..n |-> (v + j - 1) % 4000]
Rev(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]
Many(a, s, r) == /\ made /\ UNCHANGED <<made, pol>> /\ ls' = [ls EXCEPT ![a[2]] = s] /\ cap' = [cap EXCEPT ![a[2]] = Grow(@, Len(s))] /\ Fin(a, r)
AppN(a) == Many(a, ls[a[2]] \o Vals(a[4], a[3]), 0)
InsN(a) == LET s == ls[a[2]] IN Many(a, SubSeq(s, 1, a[3]) \o Rev(Vals(a[5], a[4])) \o SubSeq(s, a[3] + 1, Len(s)), 0)
RemN(a) == LET s == ls[a[2]] k == IF a[3] >= Len(s) THEN 0 ELSE IF a[4] < Len(s) - a[3] THEN a[4] ELSE Len(s) - a[3] IN
           Many(a, SubSeq(s, 1, a[3]) \o SubSeq(s, a[3] + k + 1, Len(s)), k)
\* merge dest src
Merge(a) == /\ made /\ UNCHANGED <<made, pol>>
            /\ ls' = [ls EXCEPT ![a[2]] = ls[a[2]] \o ls[a[3]]]
            /\ cap' = [cap EXCEPT ![a[2]] = Grow(@, Len(ls[a[2]]) + Len(ls[a[3]]))]
            /\ Fin(a, 0)
\* merge from a NULL list
MergeNull(a) == /\ made /\ UNCHANGED <<made, pol, ls, cap>> /\ Fin(a, 0)
\* iter list stop code: callback returns code at index stop, 0 elsewhere; r = <<ret, <<idx, value>>...>>
IterRes(s, stop, code) == LET n == IF stop < Len(s) /\ code # 0 THEN stop + 1 ELSE Len(s)
                          IN <<IF stop < Len(s) THEN code ELSE 0>> \o [k \in 1..n |-> <<k - 1, s[k]>>]
Iter(a) == /\ made /\ UNCHANGED <<made, pol, ls, cap>> /\ Fin(a, IterRes(ls[a[2]], a[3], a[4]))
\* null: size, capacity, iterate of a NULL list, remove from it
Null(a) == /\ made /\ UNCHANGED <<made, pol, ls, cap>> /\ Fin(a, <<0, 0, 0, 0>>)

Do(a) == CASE a[1] = "mk" -> Mk(a) [] a[1] = "app" -> App(a) [] a[1] = "ins" -> Ins(a) [] a[1] = "rem" -> Rem(a)
           [] a[1] = "merge" -> Merge(a) [] a[1] = "mergenull" -> MergeNull(a) [] a[1] = "iter" -> Iter(a) [] a[1] = "null" -> Null(a)
           [] a[1] = "appn" -> AppN(a) [] a[1] = "insn" -> InsN(a) [] a[1] = "remn" -> RemN(a)

Ops == {<<"mk", p, c>> : p \in POLS, c \in CAPS} \cup {<<"app", i, v>> : i \in L, v \in VALS}
       \cup {<<"ins", i, k, v>> : i \in L, k \in 0..MAXLEN, v \in VALS} \cup {<<"rem", i, k>> : i \in L, k \in 0..(MAXLEN + 1)}
       \cup {<<"merge", i, j>> : i \in L, j \in L} \cup {<<"mergenull", i>> : i \in L} \cup {<<"null">>}
       \cup {<<"iter", i, k, c>> : i \in L, k \in 0..MAXLEN, c \in {0, 3}} \cup {<<"iter", i, 0, -5>> : i \in L}
Next == \E a \in Ops : Do(a)
Spec == Init /\ [][Next]_vars
Bound == \A i \in L : Len(ls'[i]) <= MAXLEN
\* properties of the specification itself
TypeOK == \A i \in L : Len(ls[i]) <= cap[i] \/ ~made
LengthLaw == \A i \in L : made => Len(last.e.o[i + 1]) = Len(ls[i])
RemLaw == last.a[1] = "rem" => (last.e.r = 1 <=> last.a[3] < Len(last.e.o[last.a[2] + 1]) + last.e.r)
EmitGraph == Bound /\ PrintT(ToJson([s |-> view, a |-> last'.a, e |-> last'.e, t |-> view']))

Reset == made' = FALSE /\ pol' = 0 /\ ls' = [i \in L |-> <<>>] /\ cap' = [i \in L |-> 0] /\ last' = [a |-> <<"reset">>, e |-> [r |-> 0, o |-> 0]]
=============================================================================

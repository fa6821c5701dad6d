------------------------------ MODULE StackSpec ------------------------------
(* cee_stack: a bounded stack, top first. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS CAPS, VALS, POLS, NRC
VARIABLES made, pol, cap, st, last
vars == <<made, pol, cap, st, last>>
view == <<made, pol, cap, st>>
Count(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
Obs == <<Len(st'), IF st' = <<>> THEN 1 ELSE 0, IF Len(st') = cap' THEN 1 ELSE 0, st', [v \in 1..(IF pol' = 0 THEN NRC ELSE 0) |-> 1 + Count(st', v)]>>
Fin(a, r) == last' = [a |-> a, e |-> [r |-> r, o |-> IF made' THEN Obs ELSE <<>>]]
Init == made = FALSE /\ pol = 0 /\ cap = 0 /\ st = <<>> /\ last = [a |-> <<"init">>, e |-> [r |-> 0, o |-> <<>>]]
Reset == made' = FALSE /\ pol' = 0 /\ cap' = 0 /\ st' = <<>> /\ last' = [a |-> <<"reset">>, e |-> [r |-> 0, o |-> 0]]
Mk(a) == ~made /\ made' = TRUE /\ pol' = a[2] /\ cap' = a[3] /\ UNCHANGED st /\ Fin(a, 0)
Push(a) == /\ made /\ UNCHANGED <<made, pol, cap>>
           /\ IF Len(st) = cap THEN UNCHANGED st /\ Fin(a, 0) ELSE st' = <<a[2]>> \o st /\ Fin(a, 1)
Pop(a) == /\ made /\ UNCHANGED <<made, pol, cap>>
          /\ IF st = <<>> THEN UNCHANGED st /\ Fin(a, -1) ELSE st' = Tail(st) /\ Fin(a, Head(st))
\* pushn n v: push 1 + v % 9, 1 + (v + 1) % 9, ...; popn n; both count the successes
PushN(a) == /\ made /\ UNCHANGED <<made, pol, cap>>
            /\ LET n == IF a[2] < cap - Len(st) THEN a[2] ELSE cap - Len(st) IN st' = [j \in 1..n |-> 1 + ((a[3] + n - j) % 9)] \o st /\ Fin(a, n)
PopN(a) == /\ made /\ UNCHANGED <<made, pol, cap>>
           /\ LET n == IF a[2] < Len(st) THEN a[2] ELSE Len(st) IN st' = SubSeq(st, n + 1, Len(st)) /\ Fin(a, n)
Top(a) == made /\ UNCHANGED <<made, pol, cap, st>> /\ Fin(a, IF a[2] < Len(st) THEN st[a[2] + 1] ELSE -1)
Do(a) == CASE a[1] = "mk" -> Mk(a) [] a[1] = "push" -> Push(a) [] a[1] = "pop" -> Pop(a) [] a[1] = "top" -> Top(a)
           [] a[1] = "pushn" -> PushN(a) [] a[1] = "popn" -> PopN(a)
MaxCap == CHOOSE c \in CAPS : \A d \in CAPS : d <= c
Ops == {<<"mk", p, c, NRC>> : p \in POLS, c \in CAPS} \cup {<<"push", v>> : v \in VALS} \cup {<<"pop">>} \cup {<<"top", n>> : n \in 0..(MaxCap + 1)}
Next == \E a \in Ops : Do(a)
Spec == Init /\ [][Next]_vars
Bounded == Len(st) <= cap
Lifo == [][last'.a[1] = "push" /\ last'.e.r = 1 => Tail(st') = st /\ Head(st') = last'.a[2]]_vars
EmitGraph == PrintT(ToJson([s |-> view, a |-> last'.a, e |-> last'.e, t |-> view']))
=============================================================================

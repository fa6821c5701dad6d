-------------------------------- MODULE Cost --------------------------------
(* Trace specification for long histories on large trees: the set of keys, and the comparison bound of each operation. *)
EXTENDS CostBound, FiniteSets, TLC, Json
VARIABLES kind, keys, n, last
vars == <<kind, keys, n, last>>
Searches(kd) == IF kd = 0 THEN 2 ELSE 1
Fin(a, r, before) == last' = [a |-> a, e |-> [r |-> r, o |-> <<n', Searches(kind') * Bound(before), Bound(n')>>]]
Init == kind = -1 /\ keys = {} /\ n = 0 /\ last = [a |-> <<"init">>, e |-> [r |-> 0, o |-> <<0>>]]
Reset == kind' = -1 /\ keys' = {} /\ n' = 0 /\ last' = [a |-> <<"reset">>, e |-> [r |-> 0, o |-> 0]]
Mk(a) == kind = -1 /\ kind' = a[2] /\ UNCHANGED <<keys, n>> /\ Fin(a, 0, 0)
Add(a) == LET new == a[2] \notin keys IN /\ kind # -1 /\ kind' = kind /\ keys' = keys \cup {a[2]} /\ n' = n + (IF new THEN 1 ELSE 0) /\ Fin(a, IF new THEN 1 ELSE 0, n)
Rem(a) == LET old == a[2] \in keys IN /\ kind # -1 /\ kind' = kind /\ keys' = keys \ {a[2]} /\ n' = n - (IF old THEN 1 ELSE 0) /\ Fin(a, IF old THEN 1 ELSE 0, n)
\* addrange lo hi step / remrange: many operations in one line; the costs are the largest of the batch
Range(a) == {k \in (IF a[2] < a[3] THEN a[2]..a[3] ELSE a[3]..a[2]) : (k - a[2]) % a[4] = 0}
AddRange(a) == LET R == Range(a) new == {k \in R : k \notin keys} IN /\ kind # -1 /\ kind' = kind /\ keys' = keys \cup R /\ n' = n + Cardinality(new) /\ Fin(a, Cardinality(new), n')
RemRange(a) == LET R == Range(a) old == {k \in R : k \in keys} IN /\ kind # -1 /\ kind' = kind /\ keys' = keys \ R /\ n' = n - Cardinality(old) /\ Fin(a, Cardinality(old), n)
RemSkip(a) == LET R == {k \in (IF a[2] < a[3] THEN a[2]..a[3] ELSE a[3]..a[2]) : k % a[4] # a[5]} old == {k \in R : k \in keys} IN
               /\ kind # -1 /\ kind' = kind /\ keys' = keys \ R /\ n' = n - Cardinality(old) /\ Fin(a, Cardinality(old), n)
Do(a) == CASE a[1] = "mk" -> Mk(a) [] a[1] = "add" -> Add(a) [] a[1] = "rem" -> Rem(a) [] a[1] = "addrange" -> AddRange(a) [] a[1] = "remrange" -> RemRange(a) [] a[1] = "remskip" -> RemSkip(a)
Accept(x, g) == x.r = g.r /\ (x.o = g.o \/ (g.o[1] = x.o[1] /\ ((kind = 1 /\ last'.a[1] \in {"rem", "remrange", "remskip"}) \/ g.o[2] <= x.o[2]) /\ g.o[3] <= x.o[3]))
=============================================================================

-------------------------------- MODULE Avl --------------------------------
(* The balanced search tree under cee_map and cee_set, at the level of tree shapes: height-balanced insertion, and
   deletion by the in-order predecessor. Exhaustive over every reachable tree with keys in 1..N.
   Checked: order, balance, and that no search costs more comparisons than CostBound!Bound(size).
   Emitted: every transition, so the code performs every insertion and deletion in every reachable shape. *)
EXTENDS CostBound, FiniteSets, TLC, Json
CONSTANTS N, KINDS
VARIABLES kind, t, last
vars == <<kind, t, last>>
view == <<kind, t>>
H(x) == IF x = <<>> THEN 0 ELSE x[4]
Max(a, b) == IF a > b THEN a ELSE b
Node(l, k, r) == <<l, k, r, 1 + Max(H(l), H(r))>>
RotR(x) == Node(x[1][1], x[1][2], Node(x[1][3], x[2], x[3]))     \* left child up
RotL(x) == Node(Node(x[1], x[2], x[3][1]), x[3][2], x[3][3])
Bal(x) == IF H(x[1]) - H(x[3]) > 1 THEN (IF H(x[1][3]) > H(x[1][1]) THEN RotR(Node(RotL(x[1]), x[2], x[3])) ELSE RotR(x))
          ELSE IF H(x[3]) - H(x[1]) > 1 THEN (IF H(x[3][1]) > H(x[3][3]) THEN RotL(Node(x[1], x[2], RotR(x[3]))) ELSE RotL(x))
          ELSE x
RECURSIVE Insert(_, _)
Insert(x, k) == IF x = <<>> THEN Node(<<>>, k, <<>>) ELSE IF k = x[2] THEN x
                ELSE IF k < x[2] THEN Bal(Node(Insert(x[1], k), x[2], x[3])) ELSE Bal(Node(x[1], x[2], Insert(x[3], k)))
RECURSIVE MaxKey(_)
MaxKey(x) == IF x[3] = <<>> THEN x[2] ELSE MaxKey(x[3])
RECURSIVE Remove(_, _)
Remove(x, k) == IF x = <<>> THEN x
                ELSE IF k < x[2] THEN Bal(Node(Remove(x[1], k), x[2], x[3]))
                ELSE IF k > x[2] THEN Bal(Node(x[1], x[2], Remove(x[3], k)))
                ELSE IF x[1] = <<>> THEN x[3]
                ELSE LET m == MaxKey(x[1]) IN Bal(Node(Remove(x[1], m), m, x[3]))
RECURSIVE Keys(_)
Keys(x) == IF x = <<>> THEN {} ELSE Keys(x[1]) \cup {x[2]} \cup Keys(x[3])
RECURSIVE Cost(_, _)
Cost(x, k) == IF x = <<>> THEN 0 ELSE IF k = x[2] THEN 1 ELSE 1 + Cost(IF k < x[2] THEN x[1] ELSE x[3], k)
Size(x) == Cardinality(Keys(x))
\* o: <<elements, comparisons of this operation, most comparisons of a lookup of any key 0..N+1 afterwards>>; the numbers
\* here are upper bounds for the code
Searches(op, kd) == IF kd = 0 THEN 2 ELSE 1          \* cee_set_add and cee_set_remove may search twice
Fin(a, r, before) == last' = [a |-> a, e |-> [r |-> r, o |-> <<Size(t'), Searches(a[1], kind') * Bound(before), Bound(Size(t'))>>]]
Init == kind = -1 /\ t = <<>> /\ last = [a |-> <<"init">>, e |-> [r |-> 0, o |-> 0]]
Mk(a) == kind = -1 /\ kind' = a[2] /\ t' = <<>> /\ Fin(a, 0, 0)
Add(a) == kind # -1 /\ kind' = kind /\ t' = Insert(t, a[2]) /\ Fin(a, IF a[2] \in Keys(t) THEN 0 ELSE 1, Size(t))
Rem(a) == kind # -1 /\ kind' = kind /\ t' = Remove(t, a[2]) /\ Fin(a, IF a[2] \in Keys(t) THEN 1 ELSE 0, Size(t))
Do(a) == CASE a[1] = "mk" -> Mk(a) [] a[1] = "add" -> Add(a) [] a[1] = "rem" -> Rem(a)
Ops == {<<"mk", k>> : k \in KINDS} \cup {<<"add", k>> : k \in 1..N} \cup {<<"rem", k>> : k \in 1..N}
Next == \E a \in Ops : Do(a)
Spec == Init /\ [][Next]_vars
RECURSIVE Ordered(_)
Ordered(x) == x = <<>> \/ ((\A k \in Keys(x[1]) : k < x[2]) /\ (\A j \in Keys(x[3]) : j > x[2]) /\ Ordered(x[1]) /\ Ordered(x[3]))
RECURSIVE Balanced(_)
Balanced(x) == x = <<>> \/ (H(x[1]) - H(x[3]) \in {-1, 0, 1} /\ x[4] = 1 + Max(H(x[1]), H(x[3])) /\ Balanced(x[1]) /\ Balanced(x[3]))
TreeOK == Ordered(t) /\ Balanced(t)
CostLaw == \A k \in 0..(N + 1) : Cost(t, k) <= Bound(Size(t))
SetLaw == [][last'.a[1] # "mk" => Keys(t') = IF last'.a[1] = "add" THEN Keys(t) \cup {last'.a[2]} ELSE Keys(t) \ {last'.a[2]}]_vars
EmitGraph == PrintT(ToJson([s |-> view, a |-> last'.a, e |-> last'.e, t |-> view']))
=============================================================================

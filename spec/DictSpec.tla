------------------------------ MODULE DictSpec ------------------------------
(* cee_dict: insertion only; the first value added under a string stays. Keys are strings. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS KEYS, VALS, SIZES, POLS, MAXADD
VARIABLES made, pol, d, n, last
vars == <<made, pol, d, n, last>>
view == <<made, pol, d, n>>
Fin(a, r) == last' = [a |-> a, e |-> [r |-> r, o |-> 0]]
Init == made = -1 /\ pol = 0 /\ d = <<>> /\ n = 0 /\ last = [a |-> <<"init">>, e |-> [r |-> 0, o |-> 0]]
Reset == made' = -1 /\ pol' = 0 /\ d' = <<>> /\ n' = 0 /\ last' = [a |-> <<"reset">>, e |-> [r |-> 0, o |-> 0]]
Mk(a) == made = -1 /\ made' = a[3] /\ pol' = a[2] /\ UNCHANGED <<d, n>> /\ Fin(a, 0)
Add(a) == /\ made # -1 /\ UNCHANGED <<made, pol>> /\ n' = n + 1
          /\ d' = IF a[2] \in DOMAIN d THEN d ELSE d @@ (a[2] :> a[3])
          /\ Fin(a, 0)
FindD(k) == IF k \in DOMAIN d THEN d[k] ELSE -1
Find(a) == made # -1 /\ UNCHANGED <<made, pol, d, n>> /\ Fin(a, FindD(a[2]))
Do(a) == CASE a[1] = "mk" -> Mk(a) [] a[1] = "add" -> Add(a) [] a[1] = "find" -> Find(a)
Ops == {<<"mk", p, c>> : p \in POLS, c \in SIZES} \cup {<<"add", k, v>> : k \in KEYS, v \in VALS} \cup {<<"find", k>> : k \in KEYS}
Next == \E a \in Ops : Do(a)
Spec == Init /\ [][Next]_vars
FirstWins == [][\A k \in DOMAIN d : k \in DOMAIN d' /\ d'[k] = d[k]]_vars
V == <<made, pol, [k \in KEYS |-> FindD(k)], n>>
EmitGraph == n' <= MAXADD /\ PrintT(ToJson([s |-> V, a |-> last'.a, e |-> last'.e, t |-> V']))
=============================================================================

------------------------------ MODULE BoxSpec ------------------------------
(* Boxed primitives, blocks, tuples, n-tuples and tagged values: a sequence of immutable objects (blocks can be written). *)
EXTENDS Bytes, TLC, Json
CONSTANTS BOXES, SIZES, BLOCKS, TAGS, MAXOBJ
VARIABLES obj, last
vars == <<obj, last>>
Floats == INSTANCE Doubles
view == obj
Width == <<8, 4, 8, 4, 2, 1, 8, 4, 2, 1>>
\* objects: [k |-> "box", t, v] / [k |-> "block", n, v] / [k |-> "prod", v] / [k |-> "tag", v]
RECURSIVE Runs(_, _)
Runs(s, i) == IF i > Len(s) THEN <<>> ELSE LET m == PrefixIn(Drop(s, i - 1), {s[i]}) IN <<s[i], m>> \o Runs(s, i + m)
Seen(x) == CASE x.k = "box" -> x.v [] x.k = "block" -> <<Len(x.v), Runs(x.v, 1)>> [] x.k = "prod" -> x.v [] x.k = "tag" -> <<x.v, 1>>
Fin(a) == last' = [a |-> a, e |-> [r |-> <<0, <<>>>>, o |-> [i \in 1..Len(obj') |-> Seen(obj'[i])]]]
Init == obj = <<>> /\ last = [a |-> <<"init">>, e |-> [r |-> <<0, <<>>>>, o |-> <<>>]]
Reset == obj' = <<>> /\ last' = [a |-> <<"reset">>, e |-> [r |-> 0, o |-> 0]]
New(a, x) == obj' = Append(obj, x) /\ Fin(a)
Box(a) == New(a, [k |-> "box", t |-> a[2], v |-> Take(a[3], Width[a[2] + 1])])
\* text of a number: integers in decimal, floating-point values with six significant digits
Text(x) == IF x.t < 2 THEN Floats!SixText(x.v) ELSE IF x.t >= 6 THEN SDigits(x.v) ELSE Digits(x.v)
Prt(a) == LET x == obj[a[2]] s == Text(x) IN
            /\ UNCHANGED obj
            /\ last' = [a |-> a, e |-> [r |-> <<Len(s), IF a[3] = 0 THEN <<>> ELSE Take(s, Min(Len(s), a[3] - 1))>>, o |-> <<>>]]
Block(a) == New(a, [k |-> "block", v |-> [i \in 1..a[3] |-> IF a[2] = "zero" THEN 0 ELSE a[4]]])
Poke(a) == obj' = [obj EXCEPT ![a[2]].v[a[3] + 1] = a[4]] /\ Fin(a)
Prod(a) == New(a, [k |-> "prod", v |-> Drop(a, 2)])
Tag(a) == New(a, [k |-> "tag", v |-> a[3]])
Do(a) == CASE a[1] = "box" -> Box(a) [] a[1] = "print" -> Prt(a) [] a[1] = "block" -> Block(a) [] a[1] = "poke" -> Poke(a)
           [] a[1] \in {"prod", "ntup"} -> Prod(a) [] a[1] = "tag" -> Tag(a)
B == {i \in 1..Len(obj) : obj[i].k = "box"}
K == {i \in 1..Len(obj) : obj[i].k = "block" /\ Len(obj[i].v) > 0}
N == 1..Len(obj)
Ops == (IF Len(obj) < MAXOBJ THEN BOXES \cup BLOCKS \cup {<<"prod", 2, x, y>> : x \in N, y \in N} \cup {<<"prod", 3, x, y, z>> : x \in N, y \in N, z \in N}
                                  \cup {<<"tag", t, x>> : t \in TAGS, x \in N \cup {0}} ELSE {})
       \cup {<<"print", i, n>> : i \in B, n \in SIZES}
       \cup UNION {{<<"poke", i, o, 255>> : o \in {0, Len(obj[i].v) - 1}} : i \in K}
Next == \E a \in Ops : Do(a)
Spec == Init /\ [][Next]_vars
Immutable == [][\A i \in 1..Len(obj) : obj[i].k # "block" => obj'[i] = obj[i]]_vars
EmitGraph == PrintT(ToJson([s |-> view, a |-> last'.a, e |-> last'.e, t |-> view']))
=============================================================================

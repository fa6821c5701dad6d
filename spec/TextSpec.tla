------------------------------ MODULE TextSpec ------------------------------
(* Pure text functions of str.c: trimming and replacement, on all subjects over a small alphabet. *)
EXTENDS Bytes, TLC, Json
CONSTANTS FAM, ALPHA, MAXLEN, NEEDLES, NEWS
VARIABLES last
vars == last
view == last
White == {9, 10, 13, 32}
RTrim(s) == Chop(s, SuffixIn(s, White))
LTrim(s) == Drop(s, PrefixIn(s, White))
\* the first listed pair that matches at position i, or 0
Match(s, i, P) == LET M == {p \in 1..Len(P) : P[p][1] # <<>> /\ IsAt(s, i, P[p][1])} IN IF M = {} THEN 0 ELSE CHOOSE p \in M : \A q \in M : p <= q
RECURSIVE Repl(_, _, _)
Repl(s, i, P) == IF i > Len(s) THEN <<>>
                 ELSE LET m == Match(s, i, P) IN
                      IF m = 0 THEN <<s[i]>> \o Repl(s, i + 1, P) ELSE P[m][2] \o Repl(s, i + Len(P[m][1]), P)
Result(a) == CASE a[1] = "rtrim" -> [r |-> RTrim(a[2]), o |-> Len(RTrim(a[2]))]
               [] a[1] = "ltrim" -> [r |-> LTrim(a[2]), o |-> Len(LTrim(a[2]))]
               [] a[1] = "at" -> [r |-> Take(a[2], a[3]) \o a[5] \o Drop(a[2], a[3] + a[4]), o |-> 0]
               [] a[1] = "all" -> [r |-> Repl(a[2], 1, <<<<a[3], a[4]>>>>), o |-> 0]
               [] a[1] = "ext" -> LET t == Repl(a[2], 1, [p \in 1..((Len(a) - 4) \div 2) |-> <<a[3 + 2 * p], a[4 + 2 * p]>>]) IN
                              [r |-> IF a[4] = 1 THEN t ELSE Take(t, PrefixIn(t, 1..255)), o |-> 1]   \* without the length only the C string is seen
Strs(n) == UNION {[1..k -> ALPHA] : k \in 0..n}
S == Strs(MAXLEN)
Ops == CASE FAM = "trim" -> {<<o, s>> : o \in {"rtrim", "ltrim"}, s \in S}
         [] FAM = "at" -> UNION {UNION {{<<"at", s, i, n, w>> : n \in 0..(Len(s) - i), w \in NEWS} : i \in 0..Len(s)} : s \in S}
         [] FAM = "all" -> {<<"all", s, x, w>> : s \in S, x \in NEEDLES, w \in NEWS}
         [] FAM = "ext" -> {<<"ext", s, t, 1>> : s \in S, t \in 0..1} \cup {<<"ext", s, t, w, x, y>> : s \in S, t \in 0..1, w \in 0..1, x \in NEEDLES, y \in NEWS}
                           \cup {<<"ext", s, 0, 1, x, y, x2, y2>> : s \in S, x \in NEEDLES, y \in NEWS, x2 \in NEEDLES, y2 \in NEWS}
Init == last = [a |-> <<"init">>, e |-> [r |-> <<>>, o |-> 0]]
Reset == last' = [a |-> <<"reset">>, e |-> [r |-> 0, o |-> 0]]
Do(a) == last' = [a |-> a, e |-> Result(a)]
Next == last.a[1] = "init" /\ \E a \in Ops : Do(a)
Spec == Init /\ [][Next]_vars
\* what trimming and replacing mean, stated differently from how Result computes it
TrimLaw == last.a[1] \in {"rtrim", "ltrim"} =>
             LET s == last.a[2] t == last.e.r IN
             /\ IF last.a[1] = "ltrim" THEN IsSuffix(t, s) ELSE IsPrefix(t, s)
             /\ t = <<>> \/ (IF last.a[1] = "ltrim" THEN t[1] ELSE t[Len(t)]) \notin White
             /\ \A i \in 1..(Len(s) - Len(t)) : (IF last.a[1] = "ltrim" THEN s[i] ELSE s[Len(s) + 1 - i]) \in White
AllLaw == last.a[1] = "all" =>
             LET s == last.a[2] x == last.a[3] f == Find(s, x) IN
             IF f = 0 THEN last.e.r = s ELSE IsPrefix(Take(s, f - 1) \o last.a[4], last.e.r)
EmitGraph == PrintT(ToJson([a |-> last'.a, e |-> last'.e]))
=============================================================================

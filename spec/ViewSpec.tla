------------------------------ MODULE ViewSpec ------------------------------
(* strview.c: pieces, remainders and queries of string views. *)
EXTENDS Bytes, TLC, Json
CONSTANTS FAM, ALPHA, MAXLEN, ALPHA2, MAXLEN2
VARIABLES last
vars == last
view == last
White == {9, 10, 11, 12, 13, 32}
Digit == 48..57
Alpha == (65..90) \cup (97..122)
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
B(p) == IF p THEN 1 ELSE 0
R(n, piece, rest) == [r |-> <<n, piece>>, o |-> rest]
ByDelim(s, c) == LET f == Find(s, <<c>>) IN IF f = 0 THEN R(0, s, <<>>) ELSE R(0, Take(s, f - 1), Drop(s, f))
BySv(s, w) == LET f == Find(s, w) IN IF f = 0 THEN R(0, s, <<>>) ELSE R(0, Take(s, f - 1), Drop(s, f - 1 + Len(w)))
U64(s) == Digits(OfDigits(Take(s, PrefixIn(s, Digit)), 1, Zeros(8)))
Result(a) ==
  LET o == a[1] s == a[2] IN
  CASE o = "trim" -> R(0, <<>>, LET t == Drop(s, PrefixIn(s, White)) IN Chop(t, SuffixIn(t, White)))
    [] o = "trim_left" -> R(0, <<>>, Drop(s, PrefixIn(s, White)))
    [] o = "trim_right" -> R(0, <<>>, Chop(s, SuffixIn(s, White)))
    [] o = "take_alpha" -> R(0, <<>>, Take(s, PrefixIn(s, Alpha))) [] o = "take_digit" -> R(0, <<>>, Take(s, PrefixIn(s, Digit)))
    [] o = "chop_alpha" -> R(0, Take(s, PrefixIn(s, Alpha)), Drop(s, PrefixIn(s, Alpha)))
    [] o = "chop_digit" -> R(0, Take(s, PrefixIn(s, Digit)), Drop(s, PrefixIn(s, Digit)))
    [] o = "chop_left" -> R(0, Take(s, Min(a[3], Len(s))), Drop(s, Min(a[3], Len(s))))
    [] o = "chop_right" -> LET n == Min(a[3], Len(s)) IN R(0, Drop(s, Len(s) - n), Chop(s, n))
    [] o = "chop_delim" -> ByDelim(s, a[3][1])
    [] o = "try_chop" -> IF Find(s, a[3]) = 0 THEN R(0, <<>>, s) ELSE [ByDelim(s, a[3][1]) EXCEPT !.r[1] = 1]
    [] o = "try_chop0" -> IF Find(s, a[3]) = 0 THEN R(0, <<>>, s) ELSE R(1, <<>>, ByDelim(s, a[3][1]).o)
    [] o = "chop_sv" -> BySv(s, a[3])
    [] o = "index" -> R(Find(s, a[3]), <<>>, s)
    [] o = "eq" -> R(B(s = a[3]), <<>>, s) [] o = "eqi" -> R(B([i \in 1..Len(s) |-> Lower(s[i])] = [i \in 1..Len(a[3]) |-> Lower(a[3][i])]), <<>>, s)
    [] o = "starts" -> R(B(IsPrefix(a[3], s)), <<>>, s) [] o = "ends" -> R(B(IsSuffix(a[3], s)), <<>>, s)
    [] o = "u64" -> R(0, U64(s), s) [] o = "chop_u64" -> R(0, U64(s), Drop(s, PrefixIn(s, Digit)))
    [] o = "cstr" -> R(0, <<>>, s)
Strs(A, n) == UNION {[1..k -> A] : k \in 0..n}
S == Strs(ALPHA, MAXLEN)
Ops == CASE FAM = "one" -> {<<o, s>> : o \in {"trim", "trim_left", "trim_right", "take_alpha", "take_digit", "chop_alpha", "chop_digit", "u64", "chop_u64", "cstr"}, s \in S}
                           \cup {<<o, s, n>> : o \in {"chop_left", "chop_right"}, s \in S, n \in 0..(MAXLEN + 2)}
         [] FAM = "delim" -> {<<o, s, <<c>>>> : o \in {"chop_delim", "try_chop", "try_chop0", "index"}, s \in S, c \in ALPHA2}
         [] FAM = "two" -> {<<o, s, w>> : o \in {"chop_sv", "eq", "eqi", "starts", "ends"}, s \in S, w \in Strs(ALPHA2, MAXLEN2)}
Init == last = [a |-> <<"init">>, e |-> R(0, <<>>, <<>>)]
Reset == last' = [a |-> <<"reset">>, e |-> [r |-> 0, o |-> 0]]
Do(a) == last' = [a |-> a, e |-> Result(a)]
Next == last.a[1] = "init" /\ \E a \in Ops : Do(a)
Spec == Init /\ [][Next]_vars
\* nothing lost, nothing invented
Conserve == LET a == last.a piece == last.e.r[2] rest == last.e.o IN
   /\ a[1] \in {"chop_left", "chop_alpha", "chop_digit"} => piece \o rest = a[2]
   /\ a[1] = "chop_right" => rest \o piece = a[2]
   /\ a[1] \in {"chop_delim", "chop_sv"} => piece \o a[3] \o rest = a[2] \/ (piece = a[2] /\ rest = <<>> /\ Find(a[2], a[3]) = 0)
   /\ a[1] = "try_chop" /\ last.e.r[1] = 1 => piece \o a[3] \o rest = a[2]
EmitGraph == PrintT(ToJson([a |-> last'.a, e |-> last'.e]))
=============================================================================

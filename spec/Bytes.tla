------------------------------- MODULE Bytes -------------------------------
(* Operations on byte sequences shared by the text specifications. *)
EXTENDS Integers, Sequences
Min(a, b) == IF a < b THEN a ELSE b
Sub(s, i, n) == SubSeq(s, i, i + n - 1)                 \* n bytes from position i (1-based)
IsAt(s, i, w) == i + Len(w) - 1 <= Len(s) /\ Sub(s, i, Len(w)) = w
IsPrefix(w, s) == IsAt(s, 1, w)
IsSuffix(w, s) == Len(w) <= Len(s) /\ Sub(s, Len(s) - Len(w) + 1, Len(w)) = w
\* first position at which w occurs, or 0
Find(s, w) == LET P == {i \in 1..(Len(s) - Len(w) + 1) : IsAt(s, i, w)} IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j
\* length of the longest prefix / suffix of bytes in set B
PrefixIn(s, B) == LET P == {i \in 1..Len(s) : s[i] \notin B} IN IF P = {} THEN Len(s) ELSE (CHOOSE i \in P : \A j \in P : i <= j) - 1
SuffixIn(s, B) == LET P == {i \in 1..Len(s) : s[i] \notin B} IN IF P = {} THEN Len(s) ELSE Len(s) - (CHOOSE i \in P : \A j \in P : i >= j)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)
Chop(s, n) == SubSeq(s, 1, Len(s) - n)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* decimal digits of a number given as little-endian bytes: repeated division by ten
RECURSIVE DivTen(_, _, _)
DivTen(b, i, rem) == IF i = 0 THEN [q |-> b, r |-> rem]
                     ELSE LET v == rem * 256 + b[i] IN DivTen([b EXCEPT ![i] = v \div 10], i - 1, v % 10)
RECURSIVE Digits(_)
Digits(b) == LET d == DivTen(b, Len(b), 0) IN (IF \A i \in 1..Len(b) : d.q[i] = 0 THEN <<>> ELSE Digits(d.q)) \o <<48 + d.r>>
\* two's complement negation of little-endian bytes
RECURSIVE AddOne(_, _)
AddOne(b, i) == IF i > Len(b) THEN b ELSE IF b[i] = 255 THEN AddOne([b EXCEPT ![i] = 0], i + 1) ELSE [b EXCEPT ![i] = @ + 1]
Neg(b) == AddOne([i \in 1..Len(b) |-> 255 - b[i]], 1)
SDigits(b) == IF b[Len(b)] >= 128 THEN <<45>> \o Digits(Neg(b)) ELSE Digits(b)
\* value of decimal digits modulo 2^(8*n), as little-endian bytes
RECURSIVE MulTenAdd(_, _, _)
MulTenAdd(b, i, carry) == IF i > Len(b) THEN b ELSE LET v == b[i] * 10 + carry IN MulTenAdd([b EXCEPT ![i] = v % 256], i + 1, v \div 256)
RECURSIVE OfDigits(_, _, _)
OfDigits(s, i, b) == IF i > Len(s) THEN b ELSE OfDigits(s, i + 1, MulTenAdd(b, 1, s[i] - 48))
Zeros(n) == [i \in 1..n |-> 0]
=============================================================================

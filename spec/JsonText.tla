------------------------------ MODULE JsonText ------------------------------
(* JSON texts as byte sequences: the grammar, the value a text denotes, the canonical text of a value.
   Values: <<"z">> null, <<"t">>, <<"f">>, <<"i", digits>>, <<"u", digits>>, <<"d", 8 bytes>> (IEEE double, little endian),
           <<"s", bytes>>, <<"a", values>>, <<"o", <<key, value>> pairs>>.
   Raw values (what Parse builds) have <<"n", text>> for numbers; Typed turns them into i, u or d. *)
EXTENDS Bytes, FiniteSets, TLC, Fold
White == {9, 10, 13, 32}
At(s, i) == IF i <= Len(s) THEN s[i] ELSE -1
IsDigit(c) == 48 <= c /\ c <= 57
RECURSIVE Ws(_, _)
Ws(s, i) == IF At(s, i) \in White THEN Ws(s, i + 1) ELSE i
RECURSIVE Dig(_, _)
Dig(s, i) == IF IsDigit(At(s, i)) THEN Dig(s, i + 1) ELSE i
MaxDepth == 511

\* ---------------------------------------------------------------- UTF-8
Utf8(cp) == IF cp < 128 THEN <<cp>>
            ELSE IF cp < 2048 THEN <<192 + cp \div 64, 128 + (cp % 64)>>
            ELSE IF cp < 65536 THEN <<224 + cp \div 4096, 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
            ELSE <<240 + cp \div 262144, 128 + ((cp \div 4096) % 64), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
\* the length of the character that starts at i, 0 if none does
Char8(s, i) == LET c == s[i]
                   T(j) == At(s, i + j) \in 128..191
                   U == At(s, i + 1) IN
               IF c < 128 THEN 1
               ELSE IF c \in 194..223 THEN (IF T(1) THEN 2 ELSE 0)
               ELSE IF c \in 224..239 THEN (IF T(1) /\ T(2) /\ (c = 224 => U >= 160) /\ (c = 237 => U < 160) THEN 3 ELSE 0)
               ELSE IF c \in 240..244 THEN (IF T(1) /\ T(2) /\ T(3) /\ (c = 240 => U >= 144) /\ (c = 244 => U < 144) THEN 4 ELSE 0)
               ELSE 0
RECURSIVE Utf8From(_, _)
Utf8From(s, i) == i > Len(s) \/ (Char8(s, i) # 0 /\ Utf8From(s, i + Char8(s, i)))
IsUtf8(s) == Utf8From(s, 1)

\* ---------------------------------------------------------------- strings
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF 97 <= c /\ c <= 102 THEN c - 87 ELSE IF 65 <= c /\ c <= 70 THEN c - 55 ELSE -1
Hex4(s, i) == LET h == [j \in 0..3 |-> HexVal(At(s, i + j))] IN
              IF \E j \in 0..3 : h[j] < 0 THEN -1 ELSE ((h[0] * 16 + h[1]) * 16 + h[2]) * 16 + h[3]
Simple(c) == CASE c = 34 -> 34 [] c = 92 -> 92 [] c = 47 -> 47 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> -1
NoStr == [ok |-> FALSE, next |-> 0, v |-> <<>>]
\* where the run of ordinary bytes from i on ends (looking at most 12 bytes ahead)
RunEnd(s, i) == LET m == IF i + 11 <= Len(s) THEN i + 11 ELSE Len(s)
                    S == {j \in i..m : s[j] < 32 \/ s[j] = 34 \/ s[j] = 92} IN IF S = {} THEN m + 1 ELSE CHOOSE j \in S : \A k \in S : j <= k
\* i: position in the string, acc: bytes so far, esc: an escape was seen, hi: the first surrogate that waits for its second
RECURSIVE Str(_, _, _, _, _)
Str(s, i, acc, esc, hi) ==
  LET c == At(s, i) e == At(s, i + 1) IN
  IF c < 32 THEN NoStr
  ELSE IF c = 34 THEN (IF hi = 0 /\ (esc => IsUtf8(acc)) THEN [ok |-> TRUE, next |-> i + 1, v |-> acc] ELSE NoStr)
  ELSE IF c # 92 THEN (IF hi # 0 THEN NoStr ELSE LET j == RunEnd(s, i) IN Str(s, j, acc \o Sub(s, i, j - i), esc, 0))
  ELSE IF e # 117 THEN (IF hi # 0 \/ Simple(e) < 0 THEN NoStr ELSE Str(s, i + 2, Append(acc, Simple(e)), TRUE, 0))
  ELSE LET x == Hex4(s, i + 2) IN
       IF x < 0 THEN NoStr
       ELSE IF hi # 0 THEN (IF x \in 56320..57343 THEN Str(s, i + 6, acc \o Utf8(65536 + (hi - 55296) * 1024 + (x - 56320)), TRUE, 0) ELSE NoStr)
       ELSE IF x \in 55296..56319 THEN Str(s, i + 6, acc, TRUE, x)
       ELSE IF x \in 56320..57343 THEN NoStr
       ELSE Str(s, i + 6, acc \o Utf8(x), TRUE, 0)

\* ---------------------------------------------------------------- numbers
\* where the number that starts at i ends (the position after it), 0 if it is malformed
NumEnd(s, i) == LET a == IF At(s, i) = 45 THEN i + 1 ELSE i
                    b == Dig(s, a)
                    c == IF At(s, b) = 46 THEN Dig(s, b + 1) ELSE b
                    d == IF At(s, c) \in {69, 101} THEN (IF At(s, c + 1) \in {43, 45} THEN c + 2 ELSE c + 1) ELSE c
                    f == IF d > c THEN Dig(s, d) ELSE c IN
                IF b = a \/ (s[a] = 48 /\ b > a + 1) \/ (At(s, b) = 46 /\ c = b + 1) \/ (d > c /\ f = d) THEN 0 ELSE f
\* natural numbers as little-endian limbs of 12 bits
\* (folds instead of recursion where the depth would be large: TLC's context lookups cost as much as the recursion is deep)
Carry(M) == LET f == Fold(LAMBDA a, x : LET v == x + a.c IN [c |-> v \div 4096, q |-> Append(a.q, v % 4096)], [c |-> 0, q |-> <<>>], M) IN
            f.q \o <<f.c % 4096, f.c \div 4096>>
\* M * k + c for k, c <= 10^5: limbs may grow up to 3 * 4095 (products still fit in 31 bits), so no carry has to travel further than two places
MulAdd(M, k, c) == LET n == Len(M)
                       P == [i \in -1..(n + 2) |-> IF i = 1 THEN c + (IF n >= 1 THEN M[1] * k ELSE 0) ELSE IF 1 < i /\ i <= n THEN M[i] * k ELSE 0]
                       R == [i \in 1..(n + 2) |-> (P[i] % 4096) + ((P[i - 1] \div 4096) % 4096) + (P[i - 2] \div 16777216)] IN
                   IF R[n + 2] # 0 THEN R ELSE IF R[n + 1] # 0 THEN Take(R, n + 1) ELSE Take(R, n)
RECURSIVE Norm(_)
Norm(M) == IF M # <<>> /\ M[Len(M)] = 0 THEN Norm(Take(M, Len(M) - 1)) ELSE M
Pow10(n) == CASE n = 0 -> 1 [] n = 1 -> 10 [] n = 2 -> 100 [] n = 3 -> 1000 [] n = 4 -> 10000 [] n = 5 -> 100000
RECURSIVE Chunk(_, _, _, _)        \* n digits from i on as a number
Chunk(D, i, n, v) == IF n = 0 THEN v ELSE Chunk(D, i + 1, n - 1, v * 10 + D[i])
Upto(n) == [i \in 1..n |-> i]
OfDec(D) == LET n == Len(D) h == n % 5 IN
            Fold(LAMBDA M, j : MulAdd(M, 100000, Chunk(D, h + 5 * j - 4, 5, 0)), IF h = 0 THEN <<>> ELSE MulAdd(<<>>, 1, Chunk(D, 1, h, 0)), Upto(n \div 5))
MulPow(M, n) == Fold(LAMBDA P, j : MulAdd(P, 100000, 0), MulAdd(M, Pow10(n % 5), 0), Upto(n \div 5))      \* M * 10^n
Proper(M) == Norm(Carry(M))
\* big-endian limbs divided by k; leading zeros dropped
DivBy(M, k) == Fold(LAMBDA a, x : LET v == a.r * 4096 + x IN [r |-> v % k, q |-> IF a.q = <<>> /\ v < k THEN a.q ELSE Append(a.q, v \div k)], [r |-> 0, q |-> <<>>], M)
\* big-endian M div 10^n and whether anything was lost
DivPow(M, n) == Fold(LAMBDA a, j : LET d == DivBy(a.q, IF j = 1 THEN Pow10(n % 5) ELSE 100000) IN [q |-> d.q, lost |-> a.lost \/ d.r # 0], [q |-> M, lost |-> FALSE], Upto(n \div 5 + 1))
Flip(M) == [i \in 1..Len(M) |-> M[Len(M) + 1 - i]]
P2(n) == 2 ^ n
BitLen(M) == IF M = <<>> THEN 0 ELSE LET t == M[Len(M)] IN 12 * (Len(M) - 1) + (CHOOSE n \in 1..12 : P2(n - 1) <= t /\ t < P2(n))
Bit(M, i) == IF i < 0 \/ i \div 12 + 1 > Len(M) THEN 0 ELSE (M[i \div 12 + 1] \div P2(i % 12)) % 2
AnyBit(M, n) == \E i \in 0..(n - 1) : Bit(M, i) = 1      \* among the n lowest
RECURSIVE Incr(_, _)               \* a bit function 0..53 plus one
Incr(b, i) == IF b[i] = 0 THEN [b EXCEPT ![i] = 1] ELSE Incr([b EXCEPT ![i] = 0], i + 1)
BitsOf(x, n) == [i \in 0..n |-> (x \div P2(i)) % 2]
Pack(frac, biased, neg) == LET e == BitsOf(biased, 11)
                               bit(i) == IF i < 52 THEN frac[i] ELSE IF i < 63 THEN e[i - 52] ELSE neg IN
                           [k \in 1..8 |-> LET j == 8 * (k - 1) IN
                              bit(j) + 2 * bit(j + 1) + 4 * bit(j + 2) + 8 * bit(j + 3) + 16 * bit(j + 4) + 32 * bit(j + 5) + 64 * bit(j + 6) + 128 * bit(j + 7)]
Zero == [i \in 0..53 |-> 0]
Max(a, b) == IF a > b THEN a ELSE b
\* the double nearest to M * 2^e2 (plus something below the last bit if lost), ties to even
Nearest(M, e2, lost, neg) ==
  LET sh == Max(BitLen(M) - 53, -1074 - e2)
      q0 == [i \in 0..53 |-> IF i > 52 THEN 0 ELSE Bit(M, i + sh)]
      up == sh > 0 /\ Bit(M, sh - 1) = 1 /\ (lost \/ AnyBit(M, sh - 1) \/ q0[0] = 1)
      q1 == IF up THEN Incr(q0, 0) ELSE q0
      E == IF q1[53] = 1 THEN e2 + sh + 1 ELSE e2 + sh
      q == IF q1[53] = 1 THEN [Zero EXCEPT ![52] = 1] ELSE q1 IN
  IF E > 971 THEN Pack(Zero, 2047, neg) ELSE Pack(q, IF q[52] = 1 THEN E + 1075 ELSE 0, neg)
\* the double nearest to digits D (values 0..9) times 10^k
Dbl(D0, k, neg) ==
  LET z == PrefixIn(D0, {0})
      D == Drop(D0, z)
      n == Len(D) IN
  IF n = 0 \/ n + k < -330 THEN Pack(Zero, 0, neg)
  ELSE IF n + k > 310 THEN Pack(Zero, 2047, neg)
  ELSE LET N == OfDec(D) IN
       IF k >= 0 THEN Nearest(Proper(MulPow(N, k)), 0, FALSE, neg)
       ELSE LET limbs == ((-k * 3322) \div 1000 + 70) \div 12 + 1
                d == DivPow(Flip(Proper(N)) \o Zeros(limbs), -k) IN Nearest(Flip(d.q), -12 * limbs, d.lost, neg)
\* the decimal digits and the exponent of ten of a number text (its integer and fraction digits, and what they are scaled by)
RECURSIVE SmallNat(_, _, _)
SmallNat(s, i, v) == IF i > Len(s) THEN v ELSE IF v > 100000 THEN v ELSE SmallNat(s, i + 1, v * 10 + s[i] - 48)
Decimal(t) == LET a == IF t[1] = 45 THEN 2 ELSE 1
                  b == Dig(t, a)
                  c == IF At(t, b) = 46 THEN Dig(t, b + 1) ELSE b
                  sg == At(t, c + 1)
                  ex == Drop(t, IF sg \in {43, 45} THEN c + 1 ELSE c)
                  e == SmallNat(ex, 1, 0)
                  ds == Sub(t, a, b - a) \o (IF c > b THEN Sub(t, b + 1, c - b - 1) ELSE <<>>) IN
              [neg |-> IF t[1] = 45 THEN 1 ELSE 0, D |-> [i \in 1..Len(ds) |-> ds[i] - 48],
               k |-> (IF sg = 45 THEN -e ELSE e) - (IF c > b THEN c - b - 1 ELSE 0), int |-> b > Len(t)]
\* digit strings without leading zeros, compared as numbers
RECURSIVE LexLeq(_, _, _)
LexLeq(a, b, i) == i > Len(a) \/ a[i] < b[i] \/ (a[i] = b[i] /\ LexLeq(a, b, i + 1))
NatLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLeq(a, b, 1))
MinI64 == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>           \* 9223372036854775808
MaxI64 == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>
MaxU64 == <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>
Number(t) == LET d == Decimal(t)
                 n == IF t[1] = 45 THEN Drop(t, 1) ELSE t IN
             IF d.int /\ NatLeq(n, IF d.neg = 1 THEN MinI64 ELSE MaxI64) THEN <<"i", IF n = <<48>> THEN n ELSE t>>
             ELSE IF d.int /\ d.neg = 0 /\ NatLeq(n, MaxU64) THEN <<"u", n>>
             ELSE <<"d", Dbl(d.D, d.k, d.neg)>>

\* ---------------------------------------------------------------- values
Err(i) == [ok |-> FALSE, next |-> i, v |-> <<>>]
Ok(i, v) == [ok |-> TRUE, next |-> i, v |-> v]
Lit(s, i, w, v) == IF IsAt(s, i, w) THEN Ok(i + Len(w), v) ELSE Err(i)
\* put a member: the last value of a name, at the place of the first
Put(P, k, v) == IF \E j \in 1..Len(P) : P[j][1] = k THEN [j \in 1..Len(P) |-> IF P[j][1] = k THEN <<k, v>> ELSE P[j]] ELSE Append(P, <<k, v>>)
\* the value that starts at i (white space skipped), inside d open brackets. On failure next is the offending token (or the end)
RECURSIVE Val(_, _, _)
RECURSIVE Elems(_, _, _, _)
RECURSIVE Members(_, _, _, _)
Val(s, i0, d) ==
  LET i == Ws(s, i0) c == At(s, i) IN
  CASE c = 91 -> (IF d >= MaxDepth THEN Err(i) ELSE LET j == Ws(s, i + 1) IN IF At(s, j) = 93 THEN Ok(j + 1, <<"a", <<>>>>) ELSE Elems(s, i + 1, d + 1, <<>>))
    [] c = 123 -> (IF d >= MaxDepth THEN Err(i) ELSE LET j == Ws(s, i + 1) IN IF At(s, j) = 125 THEN Ok(j + 1, <<"o", <<>>>>) ELSE Members(s, i + 1, d + 1, <<>>))
    [] c = 34 -> (LET r == Str(s, i + 1, <<>>, FALSE, 0) IN IF r.ok THEN Ok(r.next, <<"s", r.v>>) ELSE Err(i))
    [] c = 116 -> Lit(s, i, <<116, 114, 117, 101>>, <<"t">>)
    [] c = 102 -> Lit(s, i, <<102, 97, 108, 115, 101>>, <<"f">>)
    [] c = 110 -> Lit(s, i, <<110, 117, 108, 108>>, <<"z">>)
    [] c = 45 \/ IsDigit(c) -> (LET e == NumEnd(s, i) IN IF e = 0 THEN Err(i) ELSE Ok(e, <<"n", Sub(s, i, e - i)>>))
    [] OTHER -> Err(i)
Elems(s, i, d, acc) ==
  LET r == Val(s, i, d) IN
  IF ~r.ok THEN r
  ELSE LET j == Ws(s, r.next) vs == Append(acc, r.v) IN
       IF At(s, j) = 93 THEN Ok(j + 1, <<"a", vs>>) ELSE IF At(s, j) = 44 THEN Elems(s, j + 1, d, vs) ELSE Err(j)
Members(s, i0, d, acc) ==
  LET i == Ws(s, i0) IN
  IF At(s, i) # 34 THEN Err(i)
  ELSE LET k == Str(s, i + 1, <<>>, FALSE, 0) IN
       IF ~k.ok THEN Err(i)
       ELSE LET c == Ws(s, k.next) IN
            IF At(s, c) # 58 THEN Err(c)
            ELSE LET r == Val(s, c + 1, d) IN
                 IF ~r.ok THEN r
                 ELSE LET j == Ws(s, r.next) ms == Put(acc, k.v, r.v) IN
                      IF At(s, j) = 125 THEN Ok(j + 1, <<"o", ms>>) ELSE IF At(s, j) = 44 THEN Members(s, j + 1, d, ms) ELSE Err(j)
\* a text: with the end enforced only white space may follow
Parse(s, force) == LET r == Val(s, 1, 0) IN
                   IF r.ok /\ force = 1 /\ Ws(s, r.next) <= Len(s) THEN Err(Ws(s, r.next)) ELSE r
LineAt(s, i) == Cardinality({j \in 1..(i - 1) : s[j] \in {10, 13}})
RECURSIVE Typed(_)
Typed(v) == CASE v[1] = "n" -> Number(v[2])
              [] v[1] = "a" -> <<"a", [i \in 1..Len(v[2]) |-> Typed(v[2][i])]>>
              [] v[1] = "o" -> <<"o", [i \in 1..Len(v[2]) |-> <<v[2][i][1], Typed(v[2][i][2])>>]>>
              [] OTHER -> v

\* ---------------------------------------------------------------- canonical text
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
EscByte(c) == CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c = 8 -> <<92, 98>> [] c = 12 -> <<92, 102>> [] c = 10 -> <<92, 110>>
                [] c = 13 -> <<92, 114>> [] c = 9 -> <<92, 116>> [] c < 32 /\ c \notin {8, 9, 10, 12, 13} -> <<92, 117, 48, 48, HexDigit(c \div 16), HexDigit(c % 16)>>
                [] OTHER -> <<c>>
RECURSIVE Cat(_, _, _)             \* the concatenation of parts i..j, by halves
Cat(P, i, j) == IF i > j THEN <<>> ELSE IF i = j THEN P[i] ELSE LET m == (i + j) \div 2 IN Cat(P, i, m) \o Cat(P, m + 1, j)
Escape(s) == LET P == [i \in 1..Len(s) |-> EscByte(s[i])] IN Cat(P, 1, Len(P))
Quote(s) == <<34>> \o Escape(s) \o <<34>>
RECURSIVE DecN(_)
DecN(x) == IF x < 10 THEN <<48 + x>> ELSE DecN(x \div 10) \o <<48 + (x % 10)>>
RECURSIVE Compact(_)               \* values without doubles
Compact(v) == CASE v[1] = "z" -> <<110, 117, 108, 108>> [] v[1] = "t" -> <<116, 114, 117, 101>> [] v[1] = "f" -> <<102, 97, 108, 115, 101>>
                [] v[1] \in {"i", "u"} -> v[2]
                [] v[1] \in {"s", "n8"} -> Quote(v[2])
                [] v[1] = "x" -> <<117, 110, 100, 101, 102, 105, 110, 101, 100>>
                [] v[1] = "b" -> <<34, 98, 108, 111, 98, 58>> \o DecN(Len(v[2])) \o <<32, 98, 121, 116, 101, 115, 34>>
                [] v[1] = "a" -> LET P == [i \in 1..Len(v[2]) |-> (IF i > 1 THEN <<44>> ELSE <<>>) \o Compact(v[2][i])] IN <<91>> \o Cat(P, 1, Len(P)) \o <<93>>
                [] v[1] = "o" -> LET P == [i \in 1..Len(v[2]) |-> (IF i > 1 THEN <<44>> ELSE <<>>) \o Quote(v[2][i][1]) \o <<58>> \o Compact(v[2][i][2])] IN
                                 <<123>> \o Cat(P, 1, Len(P)) \o <<125>>
\* a value as the flat sequence of what is met in document order (for values too deeply nested for the trace format)
RECURSIVE Flat(_)
Flat(v) == IF v[1] = "a" THEN LET P == [i \in 1..Len(v[2]) |-> Flat(v[2][i])] IN <<<<"a", Len(v[2])>>>> \o Cat(P, 1, Len(P))
           ELSE IF v[1] = "o" THEN LET P == [i \in 1..Len(v[2]) |-> <<<<"k", v[2][i][1]>>>> \o Flat(v[2][i][2])] IN <<<<"o", Len(v[2])>>>> \o Cat(P, 1, Len(P))
           ELSE <<v>>
RECURSIVE HasDouble(_)
HasDouble(v) == CASE v[1] = "d" -> TRUE [] v[1] = "a" -> \E i \in 1..Len(v[2]) : HasDouble(v[2][i])
                  [] v[1] = "o" -> \E i \in 1..Len(v[2]) : HasDouble(v[2][i][2]) [] OTHER -> FALSE
=============================================================================

------------------------------ MODULE Doubles ------------------------------
(* IEEE numbers (little-endian bytes) as exact decimals, and their text with six significant digits. *)
EXTENDS JsonText
\* ---- the exact decimal expansion of a double
Scale(M, b, e) == LET c == IF b = 2 THEN 16 ELSE 7 IN Fold(LAMBDA P, j : MulAdd(P, b ^ c, 0), MulAdd(M, b ^ (e % c), 0), Upto(e \div c))
ToDec(M) == LET big == Flip(Proper(M))
                f == Fold(LAMBDA a, j : LET d == DivBy(a.q, 100000) IN [q |-> d.q, ds |-> Append(a.ds, d.r)], [q |-> big, ds |-> <<>>], Upto((12 * Len(big) * 302) \div 5000 + 2))
                five(x) == <<x \div 10000, (x \div 1000) % 10, (x \div 100) % 10, (x \div 10) % 10, x % 10>>
                P == [i \in 1..Len(f.ds) |-> five(f.ds[Len(f.ds) + 1 - i])]
                D == Cat(P, 1, Len(P)) IN Drop(D, PrefixIn(D, {0}))
Biased(b) == (b[8] % 128) * 16 + (b[7] \div 16)
IsNaN(b) == Biased(b) = 2047 /\ (b[7] % 16 # 0 \/ \E i \in 1..6 : b[i] # 0)
IsInf(b) == Biased(b) = 2047 /\ ~IsNaN(b)
IsZero(b) == Biased(b) = 0 /\ b[7] % 16 = 0 /\ \A i \in 1..6 : b[i] = 0
Minus(b) == b[8] >= 128
\* digits D and exponent k of a finite double: its magnitude is D * 10^k
Expand(b) == LET m == <<b[1] + 256 * (b[2] % 16), (b[2] \div 16) + 16 * b[3], b[4] + 256 * (b[5] % 16), (b[5] \div 16) + 16 * b[6], (b[7] % 16) + (IF Biased(b) = 0 THEN 0 ELSE 16)>>
                 e == (IF Biased(b) = 0 THEN 1 ELSE Biased(b)) - 1075 IN
             IF e >= 0 THEN [D |-> ToDec(Scale(m, 2, e)), k |-> 0] ELSE [D |-> ToDec(Scale(m, 5, -e)), k |-> e]
\* trailing zeros moved into the exponent
Trimmed(D, k) == LET z == SuffixIn(D, {0}) IN <<Take(D, Len(D) - z), k + z>>
RECURSIVE Bump(_)
Bump(D) == IF D = <<>> THEN <<1>> ELSE LET l == Len(D) IN IF D[l] < 9 THEN [D EXCEPT ![l] = D[l] + 1] ELSE Append(Bump(Take(D, l - 1)), 0)
\* the nearest with at most s significant digits (ties to even)
Round(D, k, s) == IF Len(D) <= s THEN Trimmed(D, k)
                  ELSE LET h == Take(D, s) r == Drop(D, s)
                           up == r[1] > 5 \/ (r[1] = 5 /\ ((\E i \in 2..Len(r) : r[i] # 0) \/ h[s] % 2 = 1)) IN
                       Trimmed(IF up THEN Bump(h) ELSE h, k + Len(r))
\* ---- the same for single precision (4 bytes)
Biased4(b) == (b[4] % 128) * 2 + (b[3] \div 128)
Fraction4(b) == <<b[1] + 256 * (b[2] % 16), (b[2] \div 16) + 16 * (b[3] % 128)>>
IsNaN4(b) == Biased4(b) = 255 /\ Fraction4(b) # <<0, 0>>
IsInf4(b) == Biased4(b) = 255 /\ Fraction4(b) = <<0, 0>>
IsZero4(b) == Biased4(b) = 0 /\ Fraction4(b) = <<0, 0>>
Expand4(b) == LET f == Fraction4(b) m == <<f[1], f[2] + (IF Biased4(b) = 0 THEN 0 ELSE 2048)>>
                  e == (IF Biased4(b) = 0 THEN 1 ELSE Biased4(b)) - 150 IN
              IF e >= 0 THEN [D |-> ToDec(Scale(m, 2, e)), k |-> 0] ELSE [D |-> ToDec(Scale(m, 5, -e)), k |-> e]
\* ---- shortest form with at most six significant digits: plain for 10^-5 < |x| < 10^6, otherwise d.ddde+XX
Chars(D) == [i \in 1..Len(D) |-> 48 + D[i]]
Pad0(n) == [i \in 1..n |-> 48]
Two(n) == IF n < 10 THEN <<48, 48 + n>> ELSE Chars(IF n < 100 THEN <<n \div 10, n % 10>> ELSE <<n \div 100, (n \div 10) % 10, n % 10>>)
Six(x) == LET r == Round(x.D, x.k, 6) D == r[1] c == Chars(D) p == Len(D) + r[2] - 1 IN   \* p: exponent of the first digit
          IF p < -4 \/ p >= 6 THEN <<c[1]>> \o (IF Len(c) = 1 THEN <<>> ELSE <<46>> \o Drop(c, 1)) \o <<101, IF p < 0 THEN 45 ELSE 43>> \o Two(IF p < 0 THEN -p ELSE p)
          ELSE IF p < 0 THEN <<48, 46>> \o Pad0(-p - 1) \o c
          ELSE IF Len(c) <= p + 1 THEN c \o Pad0(p + 1 - Len(c))
          ELSE Take(c, p + 1) \o <<46>> \o Drop(c, p + 1)
INF == <<105, 110, 102>>
NAN == <<110, 97, 110>>
SixText(b) == LET d == Len(b) = 8 IN
   (IF b[Len(b)] >= 128 THEN <<45>> ELSE <<>>)
   \o (IF (d /\ IsNaN(b)) \/ (~d /\ IsNaN4(b)) THEN NAN ELSE IF (d /\ IsInf(b)) \/ (~d /\ IsInf4(b)) THEN INF
       ELSE IF (d /\ IsZero(b)) \/ (~d /\ IsZero4(b)) THEN <<48>> ELSE Six(IF d THEN Expand(b) ELSE Expand4(b)))
=============================================================================

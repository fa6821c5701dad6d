------------------------------ MODULE JsonPrint ------------------------------
(* What a value prints as. Compact text is canonical (JsonText!Compact); pretty text differs from it by white space between tokens only; doubles
   print as the decimal nearest to them with six significant digits. Printing is a pure function: it leaves the value as it was. *)
EXTENDS Doubles, Json
CONSTANTS LEAVES, KEYS, WIDTH, DEPTH, SHAPES, TEXTS
VARIABLES n, last
vars == <<n, last>>
view == last
Range(s) == {s[i] : i \in 1..Len(s)}
NoE == [r |-> <<>>, o |-> <<>>]
Init == n = 0 /\ last = [a |-> <<"init">>, e |-> NoE]
Reset == n' = 0 /\ last' = [a |-> <<"reset">>, e |-> [r |-> 0, o |-> 0]]
\* number text t stands for double b
NumberOf(t, b) == LET d == Decimal(t) D == Drop(d.D, PrefixIn(d.D, {0})) IN
                  IF IsZero(b) THEN D = <<>>
                  ELSE /\ (d.neg = 1) = Minus(b)
                       /\ IF IsInf(b) THEN Number(t) = <<"d", Pack(Zero, 2047, d.neg)>>
                          ELSE LET x == Expand(b) IN D # <<>> /\ Trimmed(D, d.k) = Round(x.D, x.k, 6)
\* ---- printed text of a value
\* raw parsed value p is what v prints as
RECURSIVE Shows(_, _)
Shows(p, v) == CASE v[1] = "d" -> (IF IsNaN(v[2]) THEN p = <<"z">> ELSE p[1] = "n" /\ NumberOf(p[2], v[2]))
                 [] v[1] \in {"i", "u"} -> p[1] = "n" /\ p[2] = v[2]
                 [] v[1] \in {"s", "n8"} -> p = <<"s", v[2]>>
                 [] v[1] = "a" -> p[1] = "a" /\ Len(p[2]) = Len(v[2]) /\ \A i \in 1..Len(v[2]) : Shows(p[2][i], v[2][i])
                 [] v[1] = "o" -> p[1] = "o" /\ Len(p[2]) = Len(v[2]) /\ \A i \in 1..Len(v[2]) : p[2][i][1] = v[2][i][1] /\ Shows(p[2][i][2], v[2][i][2])
                 [] OTHER -> p = v
\* text without the white space between tokens
Squeeze(t) == Fold(LAMBDA a, c : IF a.m = 0 THEN [m |-> IF c = 34 THEN 1 ELSE 0, q |-> IF c \in White THEN a.q ELSE Append(a.q, c)]
                                 ELSE [m |-> IF a.m = 2 THEN 1 ELSE IF c = 92 THEN 2 ELSE IF c = 34 THEN 0 ELSE 1, q |-> Append(a.q, c)], [m |-> 0, q |-> <<>>], t).q
RECURSIVE Standard(_)              \* no undefined value, no blob, text in UTF-8: what JSON can express
Standard(v) == CASE v[1] \in {"x", "b"} -> FALSE [] v[1] \in {"s", "n8"} -> IsUtf8(v[2])
                 [] v[1] = "a" -> \A i \in 1..Len(v[2]) : Standard(v[2][i]) [] v[1] = "o" -> \A i \in 1..Len(v[2]) : IsUtf8(v[2][i][1]) /\ Standard(v[2][i][2]) [] OTHER -> TRUE
TextOk(v, f, t) == IF HasDouble(v) \/ f # 0
                   THEN IF Standard(v) THEN LET p == Parse(t, 1) IN p.ok /\ Shows(p.v, v) /\ (f = 0 => Squeeze(t) = t) ELSE HasDouble(v) \/ Squeeze(t) = Compact(v)
                   ELSE t = Compact(v)
\* ---- operations. print fmt value sizes... : lengths reported, the text, prints into buffers of the given sizes, the value afterwards, the text parsed back
PrintOp(a) == last' = [a |-> a, e |-> [r |-> IF HasDouble(a[3]) THEN <<>> ELSE Compact(a[3]), o |-> a[3]]] /\ n' = n + 1
\* pdeep fmt depth shape sizes... : arrays (0), objects (1) or both in turn (2), nested
RECURSIVE Deep(_, _)
Deep(d, s) == IF d = 0 THEN <<"t">> ELSE IF s = 0 \/ (s = 2 /\ d % 2 = 0) THEN <<"a", <<Deep(d - 1, s)>>>> ELSE <<"o", <<<<<<97>>, Deep(d - 1, s)>>>>>>
DeepOp(a) == last' = [a |-> a, e |-> [r |-> Compact(Deep(a[3], a[4])), o |-> <<>>]] /\ n' = n + 1
EscapeOp(a) == LET t == Escape(a[2]) p == Parse(<<34>> \o t \o <<34>>, 1) IN
               last' = [a |-> a, e |-> [r |-> t, o |-> <<Len(t), Len(t), Len(t), 1, 1, IF p.ok THEN <<p.v>> ELSE <<>>>>]] /\ n' = n + 1
Do(a) == CASE a[1] = "print" -> PrintOp(a) [] a[1] = "pdeep" -> DeepOp(a) [] a[1] = "escape" -> EscapeOp(a)
SizesOk(g, len) == g[2] = <<len, len, len, len, 1, 1>> /\ \A i \in 1..Len(g[3]) : g[3][i] = <<len, 1>>
Accept(x, g) ==
  LET a == last'.a IN
  CASE a[1] = "escape" -> g.r = x.r /\ SubSeq(g.o, 1, 5) = SubSeq(x.o, 1, 5) /\ (0 \in Range(a[2]) \/ g.o[6] = x.o[6])
    [] a[1] = "print" -> LET v == a[3] t == g.r[1] IN
         /\ SizesOk(g.r, Len(t)) /\ Len(g.r[3]) = Len(a) - 3 /\ g.o = v /\ TextOk(v, a[2], t)
         /\ (Standard(v) => LET p == Parse(t, 1) IN p.ok /\ g.b = <<Typed(p.v)>>)
    [] a[1] = "pdeep" -> LET t == g.r[1] IN
         /\ SizesOk(g.r, Len(t)) /\ Len(g.r[3]) = Len(a) - 4 /\ Squeeze(t) = x.r /\ (a[2] = 0 => t = x.r)
         /\ LET p == Parse(t, 1) IN p.ok /\ p.v = Deep(a[3], a[4]) /\ g.b = Flat(Deep(a[3], a[4]))
\* ---- enumeration: every value of the given depth over the leaves, arrays and objects of up to WIDTH members
Arrays(V) == {<<"a", s>> : s \in UNION {[1..w -> V] : w \in 0..WIDTH}}
Objects(V) == UNION {{<<"o", [i \in 1..w |-> <<s[i], x[i]>>]>> : s \in {q \in [1..w -> KEYS] : \A i, j \in 1..w : i # j => q[i] # q[j]}, x \in [1..w -> V]} : w \in 0..WIDTH}
RECURSIVE Values(_)
Values(d) == IF d = 0 THEN LEAVES ELSE LEAVES \cup Arrays(Values(d - 1)) \cup Objects(Values(d - 1))
Next == \/ /\ n = 0 /\ n' = 1 /\ \E v \in Values(DEPTH), f \in SHAPES : last' = [a |-> <<"print", f, v, 0, 1>>, e |-> NoE]
        \/ /\ n = 0 /\ \E t \in TEXTS : EscapeOp(<<"escape", t>>)
Spec == Init /\ [][Next]_vars
\* ---- laws
CompactLaw == last.a[1] = "print" => LET v == last.a[3] IN
                (~HasDouble(v) /\ Standard(v)) => LET t == Compact(v) p == Parse(t, 1) IN p.ok /\ Shows(p.v, v) /\ Squeeze(t) = t
EscapeLaw == last.a[1] = "escape" => LET s == last.a[2] p == Parse(Quote(s), 1) IN
                /\ \A i \in 1..Len(Escape(s)) : Escape(s)[i] >= 32
                /\ (p.ok \/ ~IsUtf8(s)) /\ (p.ok => p.v = <<"s", s>>)
\* six digits are the nearest: the text's own double rounds to the same digits
RoundLaw6 == last.a[1] = "print" /\ last.a[3][1] = "d" => LET b == last.a[3][2] IN
                (IsNaN(b) \/ IsInf(b) \/ IsZero(b)) \/ LET x == Expand(b) IN <<"d", Dbl(x.D, x.k, IF Minus(b) THEN 1 ELSE 0)>> = last.a[3]
EmitGraph == PrintT(ToJson([a |-> last'.a, e |-> last'.e]))
=============================================================================

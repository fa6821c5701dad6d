------------------------------ MODULE JsonSelect ------------------------------
(* Addressing a value inside a value. A selector is a sequence of steps: .name, [index] (the closing bracket may be left out) and :type; a * in a name
   or an index stands for the text of the next argument. A selector names the value its steps lead to, or nothing. Names end at the next . [ ] or :
   so a name with these, or with a *, can only be given as an argument. *)
EXTENDS JsonText, Json
CONSTANTS DOCS,      \* values to select from
          TOKS,      \* selector pieces: <<text, arguments>>
          MAXTOK, KEYS
VARIABLES doc, sel, args, last
vars == <<doc, sel, args, last>>
view == <<doc, sel, args>>
Special == {46, 91, 93, 58}        \* . [ ] :
\* position of the first special byte at or after i
RECURSIVE TokEnd(_, _)
TokEnd(s, i) == IF i > Len(s) \/ s[i] \in Special THEN i ELSE TokEnd(s, i + 1)
IntBytes(i) == IF i < 0 THEN <<45>> \o DecN(-i) ELSE DecN(i)
\* token text with the arguments put in: .t text, .n arguments used
Subst(t, g, n) == Fold(LAMBDA a, c : IF c # 42 THEN [a EXCEPT !.t = Append(@, c)]
                                     ELSE [t |-> a.t \o (IF g[2 * a.n + 1] = "i" THEN IntBytes(g[2 * a.n + 2]) ELSE g[2 * a.n + 2]), n |-> a.n + 1], [t |-> <<>>, n |-> n], t)
IsIndex(t) == LET u == IF At(t, 1) = 45 THEN Drop(t, 1) ELSE t IN u # <<>> /\ \A i \in 1..Len(u) : IsDigit(u[i])
\* index text -> position from 1, 0 if there is none such (length: at most 9999)
Position(t, len) == IF t[1] = 45 THEN 0
                    ELSE LET z == PrefixIn(t, {48}) u == Drop(t, z) IN
                         IF Len(u) > 4 THEN 0 ELSE LET v == Fold(LAMBDA a, c : 10 * a + (c - 48), 0, u) IN IF v < len THEN v + 1 ELSE 0
Is(v, c) == CASE c = 115 -> v[1] = "s" [] c = 110 -> v[1] \in {"i", "u", "d"} [] c = 111 -> v[1] = "o" [] c = 97 -> v[1] = "a" [] c = 98 -> v[1] \in {"t", "f"} [] c = 33 -> v[1] = "z" [] OTHER -> FALSE
No == [ok |-> FALSE, v |-> <<"z">>, p |-> <<>>]
\* follow selector s from position i at value v (path p), n arguments used
RECURSIVE Follow(_, _, _, _, _, _)
Follow(s, i, v, p, g, n) ==
  IF i > Len(s) THEN [ok |-> TRUE, v |-> v, p |-> p]
  ELSE IF s[i] \notin {46, 91, 58} THEN No
  ELSE LET e == TokEnd(s, i + 1)
           raw == Sub(s, i + 1, e - i - 1)
           nx == IF At(s, e) = 93 THEN e + 1 ELSE e IN
       IF raw = <<>> THEN No
       ELSE IF s[i] = 58 THEN (IF Is(v, raw[1]) THEN Follow(s, nx, v, p, g, n) ELSE No)
       ELSE LET t == Subst(raw, g, n) IN
            IF s[i] = 91
            THEN IF v[1] # "a" \/ ~IsIndex(t.t) THEN No
                 ELSE LET k == Position(t.t, Len(v[2])) IN IF k = 0 THEN No ELSE Follow(s, nx, v[2][k], Append(p, k - 1), g, t.n)
            ELSE IF v[1] # "o" THEN No
                 ELSE LET K == {j \in 1..Len(v[2]) : v[2][j][1] = t.t} IN
                      IF K = {} THEN No ELSE LET k == CHOOSE j \in K : TRUE IN Follow(s, nx, v[2][k][2], Append(p, k - 1), g, t.n)
Select(v, s, g) == Follow(s, 1, v, <<>>, g, 0)
\* not specified: names longer than 256 bytes and type checks of several letters may also find nothing
RECURSIVE Loose(_, _, _, _)
Loose(s, i, g, n) == IF i > Len(s) \/ s[i] \notin {46, 91, 58} THEN FALSE
                     ELSE LET e == TokEnd(s, i + 1) raw == Sub(s, i + 1, e - i - 1) nx == IF At(s, e) = 93 THEN e + 1 ELSE e IN
                          IF raw = <<>> THEN FALSE
                          ELSE IF s[i] = 58 THEN Len(raw) > 1 \/ Loose(s, nx, g, n) ELSE LET t == Subst(raw, g, n) IN Len(t.t) > 256 \/ Loose(s, nx, g, t.n)
\* ---- identity: the constants true, false and null are the same wherever they stand; a place is reported as the first with that value in document order
Shared(v) == v[1] \in {"t", "f", "z"}
RECURSIVE First(_, _)              \* path of the first constant w in v: <<>> or <<path>>
Child(v, i) == IF v[1] = "a" THEN v[2][i] ELSE v[2][i][2]
First(v, w) == IF v = w THEN <<<<>>>>
               ELSE IF v[1] \notin {"a", "o"} THEN <<>>
               ELSE LET F == [i \in 1..Len(v[2]) |-> First(Child(v, i), w)] I == {i \in 1..Len(v[2]) : F[i] # <<>>} IN
                    IF I = {} THEN <<>> ELSE LET i == CHOOSE i \in I : \A j \in I : i <= j IN <<<<i - 1>> \o F[i][1]>>
Place(d, r) == IF ~r.ok THEN <<0>> ELSE <<1>> \o (IF Shared(r.v) THEN First(d, r.v)[1] ELSE r.p)
RECURSIVE ValueAt(_, _)
ValueAt(v, p) == IF p = <<>> THEN v ELSE ValueAt(Child(v, p[1] + 1), Tail(p))
RECURSIVE Found(_, _)              \* the values of the members named k, anywhere: their places
Found(v, k) == IF v[1] \notin {"a", "o"} THEN {}
               ELSE UNION {{<<i - 1>> \o p : p \in Found(Child(v, i), k) \cup (IF v[1] = "o" /\ v[2][i][1] = k THEN {<<>>} ELSE {})} : i \in 1..Len(v[2])}
\* decimal text as a number (int range)
\* ---- operations
Res(a, r) == last' = [a |-> a, e |-> [r |-> r, o |-> 0]]
SelOp(a) == Res(a, Place(a[2], Select(a[2], a[3], Drop(a, 3))))
\* digits of a number an int holds
IsInt(d) == IF d[1] = 45 THEN NatLeq(Drop(d, 1), <<50,49,52,55,52,56,51,54,52,56>>) ELSE NatLeq(d, <<50,49,52,55,52,56,51,54,52,55>>)
IntOp(a) == LET r == Select(a[2], a[3], <<>>) IN Res(a, IF r.ok /\ r.v[1] = "i" /\ IsInt(r.v[2]) THEN <<r.v[2]>> ELSE <<>>)
HasOp(a) == Res(a, Found(a[2], a[3]) # {})
Keep == UNCHANGED <<doc, sel, args>>
Do(a) == Keep /\ (CASE a[1] = "sel" -> SelOp(a) [] a[1] = "selint" -> IntOp(a) [] a[1] = "has" -> HasOp(a))
InDoc(v, p) == LET RECURSIVE F(_, _) F(w, q) == IF q = <<>> THEN TRUE ELSE w[1] \in {"a", "o"} /\ q[1] < Len(w[2]) /\ F(Child(w, q[1] + 1), Tail(q)) IN F(v, p)
Accept(x, g) == LET a == last'.a IN
  CASE a[1] = "sel" -> g.r = x.r \/ (g.r = <<0>> /\ Loose(a[3], 1, Drop(a, 3), 0))
    [] a[1] = "selint" -> g.r = x.r
    [] a[1] = "has" -> IF ~x.r THEN g.r = <<0>>
                       ELSE g.r[1] = 1 /\ LET p == Tail(g.r) IN
                            InDoc(a[2], p) /\ LET v == ValueAt(a[2], p) IN p \in Found(a[2], a[3]) \/ (Shared(v) /\ \E q \in Found(a[2], a[3]) : ValueAt(a[2], q) = v)
Init == doc = <<"z">> /\ sel = <<>> /\ args = <<>> /\ last = [a |-> <<"init">>, e |-> [r |-> 0, o |-> 0]]
Reset == Keep /\ last' = [a |-> <<"reset">>, e |-> [r |-> 0, o |-> 0]]
\* ---- enumeration: a document, then selectors piece by piece
Next == \/ last.a[1] = "init" /\ \E d \in DOCS : doc' = d /\ UNCHANGED <<sel, args>> /\ SelOp(<<"sel", d, <<>>>>)
        \/ /\ last.a[1] = "sel" /\ Len(last.a) >= 3 /\ doc' = doc
           /\ \E t \in TOKS : Len(sel) < MAXTOK /\ sel' = Append(sel, t[1]) /\ args' = args \o t[2] /\ ~Loose(Cat(sel', 1, Len(sel')), 1, args', 0) /\ SelOp(<<"sel", doc, Cat(sel', 1, Len(sel'))>> \o args')
        \/ last.a[1] = "sel" /\ sel = <<>> /\ Keep /\ \E k \in KEYS : HasOp(<<"has", doc, k>>)
Spec == Init /\ [][Next]_vars
\* ---- laws
Nothing == last.a[1] = "sel" /\ last.e.r = <<0>>
\* what is found is in the document, and a found value is what the steps alone say
InLaw == last.a[1] = "sel" /\ last.e.r[1] = 1 => LET r == Select(last.a[2], last.a[3], Drop(last.a, 3)) IN InDoc(last.a[2], r.p) /\ ValueAt(last.a[2], r.p) = r.v
\* every place can be named: by the selector spelled from its path
PathText(v, p) == LET RECURSIVE F(_, _) F(w, q) == IF q = <<>> THEN <<<<>>, <<>>>>
                                                   ELSE LET r == F(Child(w, q[1] + 1), Tail(q)) IN
                                                        IF w[1] = "a" THEN <<<<91>> \o DecN(q[1]) \o <<93>> \o r[1], r[2]>> ELSE <<<<46, 42>> \o r[1], <<"s", w[2][q[1] + 1][1]>> \o r[2]>> IN F(v, p)
RECURSIVE Places(_)
Places(v) == {<<>>} \cup (IF v[1] \notin {"a", "o"} THEN {} ELSE UNION {{<<i - 1>> \o p : p \in Places(Child(v, i))} : i \in 1..Len(v[2])})
AllNamed == last.a[1] = "sel" /\ sel = <<>> => \A p \in Places(doc) : LET t == PathText(doc, p) IN LET r == Select(doc, t[1], t[2]) IN r.ok /\ r.p = p
EmitGraph == PrintT(ToJson([a |-> last'.a, e |-> last'.e]))
=============================================================================

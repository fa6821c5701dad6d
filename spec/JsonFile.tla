------------------------------- MODULE JsonFile -------------------------------
(* JSON in files. What a file holds: <<"b", bytes>>; <<"v", value>>: some text of that value; <<"m", value>>: some text of it, its members in any order;
   <<"?">>: not specified (the rest of a write that failed); <<>>: no such file. Names are byte sequences; names in the directory "no" cannot be opened. *)
EXTENDS JsonText, Json
CONSTANTS NAMES, CONTENTS, VALUES, INPUTS     \* enumeration: files, what is put into them, values saved, how many inputs are merged
VARIABLES files, last
vars == <<files, last>>
view == files
Has(f, n) == \E i \in 1..Len(f) : f[i][1] = n
Of(f, n) == LET I == {i \in 1..Len(f) : f[i][1] = n} IN IF I = {} THEN <<>> ELSE f[CHOOSE i \in I : TRUE][2]
With(f, n, c) == IF Has(f, n) THEN [i \in 1..Len(f) |-> IF f[i][1] = n THEN <<n, c>> ELSE f[i]] ELSE Append(f, <<n, c>>)
Closed(n) == IsPrefix(<<110, 111, 47>>, n)
\* what reading a file's text gives
Read(c, force) == IF c[1] = "b" THEN LET r == Parse(c[2], force) IN IF r.ok THEN [ok |-> TRUE, v |-> Typed(r.v), line |-> 0] ELSE [ok |-> FALSE, v |-> <<"z">>, line |-> LineAt(c[2], r.next)]
                  ELSE [ok |-> TRUE, v |-> c[2], line |-> 0]
\* the value as its text says it (small unsigned numbers are signed ones)
AsText(v) == Typed(Parse(Compact(v), 1).v)
RECURSIVE Plain(_)                 \* members as a set
Plain(v) == CASE v[1] = "a" -> <<"a", [i \in 1..Len(v[2]) |-> Plain(v[2][i])]>> [] v[1] = "o" -> <<"o", {<<v[2][i][1], Plain(v[2][i][2])>> : i \in 1..Len(v[2])}>> [] OTHER -> v
Member(o, k) == LET I == {i \in 1..Len(o[2]) : o[2][i][1] = k} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
RECURSIVE Join(_, _)
Join(d, s) == IF d[1] = "a" /\ s[1] = "a" THEN <<"a", d[2] \o s[2]>>
              ELSE IF d[1] = "o" /\ s[1] = "o"
              THEN LET new == SelectSeq(s[2], LAMBDA m : Member(d, m[1]) = 0) IN
                   <<"o", [i \in 1..Len(d[2]) |-> LET j == Member(s, d[2][i][1]) IN IF j = 0 THEN d[2][i] ELSE <<d[2][i][1], Join(d[2][i][2], s[2][j][2])>>] \o new>>
              ELSE s
\* a whole value of another kind is not merged
Merge(d, s) == IF s[1] = "o" THEN Join(d, s) ELSE d
MergeAll(f, ins) == Fold(LAMBDA d, n : Merge(d, Read(Of(f, n), 1).v), Read(Of(f, ins[1]), 1).v, Tail(ins))
Originals == <<111, 114, 105, 103, 105, 110, 97, 108, 115>>
Named(v, ins) == LET w == <<"a", [i \in 1..Len(ins) |-> <<"s", ins[i]>>]>> j == Member(v, Originals) IN
                 IF j = 0 THEN <<"o", Append(v[2], <<Originals, w>>)>> ELSE <<"o", [v[2] EXCEPT ![j] = <<Originals, w>>]>>
Mergeable(f, ins) == (\A i \in 1..Len(ins) : Of(f, ins[i]) # <<>> /\ Read(Of(f, ins[i]), 1).ok) /\ Read(Of(f, ins[1]), 1).v[1] = "o"
\* ---- operations (each shows the file named first)
Res(f, r) == [f |-> f, r |-> r]
Eff(f, a) ==
  CASE a[1] = "put" -> Res(With(f, a[2], <<"b", a[3]>>), 0)
    [] a[1] = "gone" -> Res(With(f, a[2], <<>>), 0)
    \* save name value format how chunk after: writing fails after that many bytes (-1: it does not)
    [] a[1] = "save" -> LET t == Compact(a[3]) IN
         IF a[7] >= 0 /\ a[7] < Len(t) THEN Res(With(f, a[2], IF a[4] = 0 THEN <<"b", Take(t, a[7])>> ELSE <<"?">>), 0)
         ELSE IF a[4] = 0 THEN Res(With(f, a[2], <<"b", t>>), 1)
         ELSE Res(With(f, a[2], IF a[7] < 0 THEN <<"v", AsText(a[3])>> ELSE <<"?">>), IF a[7] < 0 THEN 1 ELSE -1)
    [] a[1] = "dprintf" -> Res(With(f, a[2], <<"b", a[4] \o (IF a[3][1] = "N" THEN <<110, 117, 108, 108>> ELSE Compact(a[3])) \o <<10>>>>), 0)
    \* load name force how chunk
    [] a[1] = "load" -> LET c == Of(f, a[2]) IN
         Res(f, IF c = <<>> THEN <<1>> ELSE LET x == Read(c, a[3]) IN IF x.ok THEN <<0, x.v>> ELSE IF a[4] >= 10 THEN <<1>> ELSE <<1, x.line>>)
    [] a[1] = "mergeall" -> LET ins == Drop(a, 2) IN
         IF Mergeable(f, ins) /\ ~Closed(a[2]) THEN Res(With(f, a[2], <<"m", Named(MergeAll(f, ins), ins)>>), 0) ELSE Res(f, 1)
    [] a[1] = "mergelim" -> LET ins == Drop(a, 3) IN IF Mergeable(f, ins) THEN Res(With(f, a[2], <<"?">>), -1) ELSE Res(f, 1)
Able(f, a) == CASE a[1] = "load" -> (IF a[4] % 10 = 0 THEN TRUE ELSE Of(f, a[2]) # <<>>) /\ Of(f, a[2]) # <<"?">>
                [] a[1] = "mergeall" -> \A i \in 3..Len(a) : Of(f, a[i]) # <<"?">>
                [] OTHER -> TRUE
Do(a) == LET x == Eff(files, a) IN files' = x.f /\ last' = [a |-> a, e |-> [r |-> x.r, o |-> Of(x.f, a[2])]]
Reset == files' = <<>> /\ last' = [a |-> <<"reset">>, e |-> [r |-> 0, o |-> 0]]
\* text without the white space between tokens
Squeeze(t) == Fold(LAMBDA s, c : IF s.m = 0 THEN [m |-> IF c = 34 THEN 1 ELSE 0, q |-> IF c \in White THEN s.q ELSE Append(s.q, c)]
                                 ELSE [m |-> IF s.m = 2 THEN 1 ELSE IF c = 92 THEN 2 ELSE IF c = 34 THEN 0 ELSE 1, q |-> Append(s.q, c)], [m |-> 0, q |-> <<>>], t).q
\* file c (specified) holds bytes t
Holds(c, t) == CASE c[1] = "b" -> t = c[2]
                 [] c[1] = "v" -> LET p == Parse(t, 1) IN p.ok /\ Typed(p.v) = c[2]
                 [] c[1] = "m" -> LET p == Parse(t, 1) IN p.ok /\ Plain(Typed(p.v)) = Plain(c[2])
                 [] OTHER -> TRUE
Accept(x, g) == LET a == last'.a c == x.o IN
  /\ (IF c = <<>> THEN g.o = <<0>> ELSE g.o[1] = 1 /\ Holds(c, g.o[2]))
  /\ CASE a[1] = "load" -> LET w == Of(files, a[2]) IN
            IF w = <<>> THEN g.r[1] = 1        \* no file: no value (the line is not specified)
            ELSE IF w[1] = "m" THEN g.r[1] = 0 /\ Plain(g.r[2]) = Plain(x.r[2]) ELSE g.r = x.r
       [] a[1] = "save" -> LET t == Compact(a[3]) IN
            IF a[4] = 0 THEN g.r = x.r
            ELSE IF g.r = 1 THEN Squeeze(g.o[2]) = t /\ (a[7] < 0 \/ Len(g.o[2]) <= a[7])
            ELSE g.r = 0 /\ a[7] >= 0 /\ Len(g.o[2]) = a[7] /\ IsPrefix(Squeeze(g.o[2]), t)
       [] a[1] = "mergelim" -> LET ins == Drop(a, 3) IN
            IF ~Mergeable(files, ins) THEN g.r = 1
            ELSE IF g.r = 0 THEN Len(g.o[2]) <= a[3] /\ Holds(<<"m", Named(MergeAll(files, ins), ins)>>, g.o[2]) ELSE g.r = 1 /\ Len(g.o[2]) = a[3]
       [] OTHER -> g.r = x.r
Init == files = <<>> /\ last = [a |-> <<"init">>, e |-> [r |-> 0, o |-> 0]]
\* ---- enumeration
Ins == UNION {[1..w -> NAMES] : w \in 1..INPUTS}
\* the file set here is one not set before (all combinations of contents), then one operation
Next == \/ last.a[1] \in {"init", "put"} /\ \E n \in NAMES, c \in CONTENTS : ~Has(files, n) /\ Do(<<"put", n, c>>)
        \/ last.a[1] = "put" /\ \E o \in NAMES, i \in Ins : Do(<<"mergeall", o>> \o i)
        \/ last.a[1] = "put" /\ \E n \in NAMES, f \in {0, 1} : Able(files, <<"load", n, f, 0, 0>>) /\ Do(<<"load", n, f, 0, 0>>)
        \/ last.a[1] = "init" /\ \E n \in NAMES, v \in VALUES, f \in {0, 1}, e \in -1..40 : Do(<<"save", n, v, f, 0, 0, e>>)
        \/ last.a[1] \in {"save", "mergeall"} /\ \E n \in NAMES, h \in {0, 1, 2, 10} : Able(files, <<"load", n, 1, h, 0>>) /\ Do(<<"load", n, 1, h, 0>>)
Spec == Init /\ [][Next]_vars
\* ---- laws
\* only the file named changes; a failed merge changes nothing; loading changes nothing
FrameLaw == [][last'.a[1] # "reset" => /\ \A n \in NAMES : last'.a[2] # n => Of(files', n) = Of(files, n)
                                       /\ (last'.a[1] = "load" \/ (last'.a[1] = "mergeall" /\ last'.e.r = 1)) => files' = files]_vars
\* what was saved whole loads as the value saved
SaveLaw == last.a[1] = "save" /\ last.e.r = 1 => LET c == Of(files, last.a[2]) IN Read(c, 1).ok /\ Read(c, 1).v = AsText(last.a[3]) /\ Compact(AsText(last.a[3])) = Compact(last.a[3])
\* a merged file has every member of each object merged, with the value of the last input when that is a scalar
MergeLaw == [][last'.a[1] = "mergeall" /\ last'.e.r = 0 =>
                LET ins == Drop(last'.a, 2) r == Of(files', last'.a[2])[2]
                    objs == {i \in 1..Len(ins) : Read(Of(files, ins[i]), 1).v[1] = "o"}
                    V(i) == Read(Of(files, ins[i]), 1).v IN
                /\ {r[2][i][1] : i \in 1..Len(r[2])} = {Originals} \cup UNION {{V(i)[2][j][1] : j \in 1..Len(V(i)[2])} : i \in objs}
                /\ \A i \in objs : \A j \in 1..Len(V(i)[2]) : LET m == V(i)[2][j] IN
                      (m[1] # Originals /\ m[2][1] \notin {"a", "o"} /\ \A k \in objs : k > i => Member(V(k), m[1]) = 0) => r[2][Member(r, m[1])][2] = m[2]]_vars
EmitGraph == PrintT(ToJson([s |-> files, a |-> last'.a, e |-> last'.e, t |-> files']))
=============================================================================

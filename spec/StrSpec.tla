------------------------------ MODULE StrSpec ------------------------------
(* cee_str: building strings. A string is kept as runs <<c1, n1, c2, n2, ...>> of equal bytes, so that long ones stay small. *)
EXTENDS Bytes, TLC, Json
CONSTANTS SIZES, HOWS, LENS, EXTRA, METHS
VARIABLES str, last
vars == <<str, last>>
view == str
\* runs: normal form has no empty and no two neighbouring runs of the same byte
RECURSIVE Norm(_)
Norm(s) == IF Len(s) = 0 THEN <<>>
           ELSE LET t == Norm(Drop(s, 2)) IN
                IF s[2] = 0 THEN t ELSE IF t # <<>> /\ t[1] = s[1] THEN <<s[1], s[2] + t[2]>> \o Drop(t, 2) ELSE <<s[1], s[2]>> \o t
RLen(s) == LET RECURSIVE L(_) L(i) == IF i > Len(s) THEN 0 ELSE s[i] + L(i + 2) IN L(2)
\* the C string at the start of a buffer: up to the first NUL
CStr(s) == LET z == {i \in 1..(Len(s) \div 2) : s[2 * i - 1] = 0 /\ s[2 * i] > 0} IN
           IF z = {} THEN Norm(s) ELSE Norm(Take(s, 2 * (CHOOSE i \in z : \A j \in z : i <= j) - 2))
Flat(b) == LET RECURSIVE F(_) F(i) == IF i > Len(b) THEN <<>> ELSE <<b[i], 1>> \o F(i + 1) IN Norm(F(1))
Dec(n) == LET RECURSIVE D(_) D(k) == (IF k < 10 THEN <<>> ELSE D(k \div 10)) \o <<48 + (k % 10)>> IN IF n < 0 THEN <<45>> \o D(-n) ELSE D(n)
White == {9, 10, 13, 32}
RECURSIVE LTrim(_)
LTrim(s) == IF s # <<>> /\ s[1] \in White THEN LTrim(Drop(s, 2)) ELSE s
RECURSIVE RTrim(_)
RTrim(s) == IF s # <<>> /\ s[Len(s) - 1] \in White THEN RTrim(Chop(s, 2)) ELSE s
Obs == [i \in 1..Len(str') |-> <<RLen(str'[i]), str'[i]>>]
Fin(a) == last' = [a |-> a, e |-> [r |-> 1, o |-> Obs]]
Init == str = <<>> /\ last = [a |-> <<"init">>, e |-> [r |-> 0, o |-> <<>>]]
Reset == str' = <<>> /\ last' = [a |-> <<"reset">>, e |-> [r |-> 0, o |-> 0]]
\* mk how meth size runs...
Made(how, size, t) == CASE how \in {"fmt", "lit", "vfmt", "sized"} -> Norm(t) [] how = "strn" -> CStr(t) [] how = "null" -> <<>>
                        [] how = "num" -> Flat(Dec(size)) [] how = "mix" -> Norm(<<60, 1>> \o t \o <<124, 1>> \o Flat(Dec(size)) \o <<124, 1, 122, 1, 62, 1>>)
Mk(a) == str' = Append(str, Made(a[2], a[4], Drop(a, 4))) /\ Fin(a)
Mixed(n, t) == Norm(Flat(Dec(n)) \o t \o <<113, 1>>)
New(a, s) == CASE a[1] = "add" -> (IF a[3] = 0 THEN s ELSE Norm(s \o <<a[3], 1>>))
               [] a[1] = "cat" -> Norm(s \o Drop(a, 2)) [] a[1] = "catmix" -> Norm(s \o Mixed(a[3], Drop(a, 3)))
               [] a[1] = "rep" -> Norm(Drop(a, 2)) [] a[1] = "repmix" -> Mixed(a[3], Drop(a, 3))
               [] a[1] = "ltrim" -> LTrim(s) [] a[1] = "rtrim" -> RTrim(s)
               [] a[1] \in {"catnull", "repnull", "meth"} -> s
Change(a) == str' = [str EXCEPT ![a[2]] = New(a, @)] /\ Fin(a)
Do(a) == IF a[1] = "mk" THEN Mk(a) ELSE Change(a)
\* exhaustive part: every way of making a string of every length, followed by one operation of every size
First == {<<"mk", h, m, s, 97, n>> : h \in HOWS, m \in METHS, s \in SIZES, n \in LENS}
Second == {<<"add", 1, 98>>, <<"add", 1, 0>>, <<"catnull", 1>>, <<"repnull", 1>>, <<"catmix", 1, -70, 99, 9>>, <<"repmix", 1, 123456, 99, 50>>}
          \cup {<<"cat", 1, 98, n>> : n \in EXTRA} \cup {<<"rep", 1, 98, n>> : n \in EXTRA}
Next == IF str = <<>> /\ last.a[1] = "init" THEN \E a \in First : Do(a)
        ELSE last.a[1] = "mk" /\ \E a \in Second : Do(a)
Spec == Init /\ [][Next]_vars
\* length laws, independent of the run representation
LenLaw == [][LET a == last'.a IN
              /\ (a[1] = "add" /\ a[3] # 0) => RLen(str'[1]) = RLen(str[1]) + 1
              /\ a[1] = "cat" => RLen(str'[1]) = RLen(str[1]) + RLen(Drop(a, 2))
              /\ a[1] = "rep" => RLen(str'[1]) = RLen(Drop(a, 2))]_vars
EmitOps == IF last.a[1] = "init" THEN TRUE ELSE PrintT(ToJson([ops |-> <<last, last'>>]))
=============================================================================

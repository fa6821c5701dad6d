------------------------------- MODULE DbmSpec -------------------------------
(* The managed databases of sqlite3/cee_dbm.c: files created, recreated, restored, customised and migrated by scripts.
   fs.scripts: the scripts there are, <<name, effects>>: name is the file's path; effects a sequence of <<"make">> (create the
   table of marks and further objects), <<"mark", bytes>> (add a mark), <<"ver", n>> (set the user version).
   fs.dbs: the databases there are, <<path, [ver, made, marks]>>. fs.dirs: the directories there are. *)
EXTENDS Integers, Sequences, Json, TLC, Bytes
CONSTANTS OPS, MAXMARKS, MAXSCRIPTS
VARIABLES fs, last
vars == <<fs, last>>
SetOf(l) == {l[i] : i \in 1..Len(l)}
view == [scripts |-> SetOf(fs.scripts), dbs |-> SetOf(fs.dbs)]
Fld(op(_, _), base, s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN base ELSE op(F[i - 1], s[i]) IN F[Len(s)]
At(l, n) == LET I == {i \in 1..Len(l) : l[i][1] = n} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
Put(l, n, v) == LET i == At(l, n) IN IF i = 0 THEN Append(l, <<n, v>>) ELSE [l EXCEPT ![i] = <<n, v>>]
Del(l, n) == SelectSeq(l, LAMBDA x : x[1] # n)
Slash == <<47>>
RECURSIVE Dec(_)
Dec(n) == IF n < 0 THEN <<45>> \o Dec(-n) ELSE IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
\* "schema/KIND_create.V.sql" and the like
CREATE == <<95, 99, 114, 101, 97, 116, 101, 46>>  MIGRATE == <<95, 109, 105, 103, 114, 97, 116, 101, 46>>
INSERT == <<95, 105, 110, 115, 101, 114, 116, 46>>  CUSTOM == <<95, 99, 117, 115, 116, 111, 109, 105, 122, 101, 46>>
SQL == <<46, 115, 113, 108>>
Script(dir, kind, what, v) == dir \o Slash \o kind \o what \o Dec(v) \o SQL
EmptyDb == [ver |-> 0, made |-> 0, marks |-> <<>>]
Run(db, effs) == Fld(LAMBDA d, e : CASE e[1] = "make" -> [d EXCEPT !.made = e[2]] [] e[1] = "mark" -> [d EXCEPT !.marks = Append(@, e[2])] [] e[1] = "ver" -> [d EXCEPT !.ver = e[2]], db, effs)
\* whether the statements succeed: the objects are made once, marks need them
Runs(db, effs) == Fld(LAMBDA q, e : [ok |-> q.ok /\ (CASE e[1] = "make" -> q.made = 0 [] e[1] = "mark" -> q.made # 0 [] OTHER -> TRUE), made |-> IF e[1] = "make" THEN e[2] ELSE q.made],
                      [ok |-> TRUE, made |-> db.made], effs).ok
Db(f, p) == LET i == At(f.dbs, p) IN IF i = 0 THEN <<>> ELSE f.dbs[i][2]
Has(f, n) == At(f.scripts, n) # 0
Effs(f, n) == f.scripts[At(f.scripts, n)][2]
\* the path a database has: the name given, or the kind's own file
PathOf(dir, file, own) == dir \o Slash \o (IF file = <<>> THEN own ELSE file)
(* init dir sdir ddir kind own file version flags prefix; flags: recreate restore customize *)
Step1(f, a) ==       \* the database after creation, and whether it is a new one
  LET p == PathOf(a[2], a[7], a[6]) old == Db(f, p) c == Script(a[3], a[5], CREATE, a[8]) IN
  IF old = <<>> THEN [db |-> Run(EmptyDb, Effs(f, c)), new |-> TRUE, log |-> <<"create", "apply">>, ok |-> Runs(EmptyDb, Effs(f, c))]
  ELSE IF a[9][1] = 1 THEN LET e == [EmptyDb EXCEPT !.ver = old.ver] IN [db |-> Run(e, Effs(f, c)), new |-> TRUE, log |-> <<"recreate", "apply">>, ok |-> Runs(e, Effs(f, c))]
  ELSE [db |-> old, new |-> FALSE, log |-> <<>>, ok |-> TRUE]
Apply(f, q, n, what) == IF Has(f, n) THEN [db |-> Run(q.db, Effs(f, n)), new |-> q.new, log |-> q.log \o <<what, "apply">>, ok |-> q.ok /\ Runs(q.db, Effs(f, n))]
                        ELSE [q EXCEPT !.log = Append(@, what)]
Init2(f, a) ==
  LET q1 == Step1(f, a) v == q1.db.ver q2 == [q1 EXCEPT !.log = <<"open">> \o @ \o <<"open">>]
      q3 == IF q1.new /\ a[9][2] = 1 THEN Apply(f, q2, Script(a[4], IF a[10] = <<>> THEN a[5] ELSE a[10], INSERT, v), "restore") ELSE q2
      q4 == IF q1.new /\ a[9][2] = 1 /\ a[9][3] = 1 THEN Apply(f, q3, Script(a[4], a[5], CUSTOM, v), "restore") ELSE q3
      m == Script(a[3], a[5], MIGRATE, v) IN
  IF Has(f, m) THEN LET d == Run(q4.db, Effs(f, m)) IN [db |-> d, new |-> q4.new, log |-> q4.log \o <<"apply">> \o (IF d.ver = v THEN <<>> ELSE <<"migrate">>), ok |-> q4.ok /\ Runs(q4.db, Effs(f, m))]
  ELSE [q4 EXCEPT !.log = Append(@, "migrate")]
InitOk(f, a) == (Db(f, PathOf(a[2], a[7], a[6])) # <<>> /\ a[9][1] = 0) \/ Has(f, Script(a[3], a[5], CREATE, a[8]))
\* ---- texts
BoolT(b) == IF b = 1 THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>
T(s) == s       \* labels are given as byte sequences by the enumeration
HOME == <<36, 72, 79, 77, 69>>
NormT(p, home) == IF IsPrefix(HOME, p) THEN home \o Drop(p, 5) ELSE p
Cut(t, size) == IF size = 0 THEN <<>> ELSE Take(t, Min(Len(t), size - 1))
LSchema == <<115,99,104,101,109,97,95,115,99,114,105,112,116,95,112,97,116,104,58>>  LData == <<100,97,116,97,95,115,99,114,105,112,116,95,112,97,116,104,58>>
LFile == <<100,98,95,102,105,108,101,95,112,97,116,104,58>>  Sep == <<44, 32>>
LDbKind == <<100,98,95,107,105,110,100,58>>  LCreate == <<99,114,101,97,116,101,95,118,101,114,115,105,111,110,58>>  LRecreate == <<114,101,99,114,101,97,116,101,95,100,98,58>>
LRestore == <<114,101,115,116,111,114,101,95,100,98,58>>  LKind == <<107,105,110,100,58>>  LName == <<102,105,108,101,58>>  LFinal == <<102,105,110,97,108,95,118,101,114,115,105,111,110,58>>
\* pathtext/pathtext2 schema data db size; infotext/infotext2 kind file recreate restore create final size
Text(a) == CASE a[1] = "pathtext" -> LSchema \o a[2] \o Sep \o LData \o a[3] \o Sep \o LFile \o a[4] \o Sep
             [] a[1] = "pathtext2" -> LSchema \o a[2] \o Sep \o LData \o a[3] \o Sep \o LFile \o a[4]
             [] a[1] = "infotext" -> LDbKind \o a[2] \o Sep \o LCreate \o Dec(a[6]) \o Sep \o LRecreate \o BoolT(a[4]) \o Sep \o LRestore \o BoolT(a[5]) \o Sep
             [] a[1] = "infotext2" -> LKind \o a[2] \o Sep \o LName \o a[3] \o Sep \o LRecreate \o BoolT(a[4]) \o Sep \o LRestore \o BoolT(a[5]) \o Sep \o LCreate \o Dec(a[6]) \o Sep \o LFinal \o Dec(a[7])
\* ---- operations
Res(f, r, p) == [f |-> f, r |-> r, p |-> p]
Eff(f, a) ==
  CASE a[1] = "script" -> Res([f EXCEPT !.scripts = Put(@, a[2], a[3])], 0, <<>>)
    [] a[1] = "noscript" -> Res([f EXCEPT !.scripts = Del(@, a[2])], 0, <<>>)
    [] a[1] = "init" -> LET q == Init2(f, a) p == PathOf(a[2], a[7], a[6]) IN
         Res([f EXCEPT !.dbs = Put(@, p, q.db)], <<IF q.new THEN 1 ELSE 0, q.db.ver, q.log>>, p)
    [] a[1] = "exist" -> Res(f, IF Db(f, a[2] \o Slash \o a[3]) = <<>> THEN 0 ELSE 1, a[2] \o Slash \o a[3])
    \* backup dir kind own file data-dir prefix dump: the marks are written to an insertion script by the dump program (which fails if dump = 0)
    [] a[1] = "backup" -> LET p == PathOf(a[2], a[5], a[4]) d == Db(f, p) IN
         IF d = <<>> THEN Res(f, <<0, <<"open", "backup_failed">>>>, p)
         ELSE IF a[8] = 0 THEN Res(f, <<2, <<"open", "open", "backup_failed">>>>, p)
         ELSE Res([f EXCEPT !.scripts = Put(@, Script(a[6], IF a[7] = <<>> THEN a[3] ELSE a[7], INSERT, d.ver), [i \in 1..Len(d.marks) |-> <<"mark", d.marks[i]>>])], <<1, <<"open", "open", "backup">>>>, p)
    \* open, add a mark through the binding layer, close
    [] a[1] = "add" -> LET p == a[2] \o Slash \o a[3] IN Res([f EXCEPT !.dbs = Put(@, p, Run(Db(f, p), <<<<"mark", a[4]>>>>))], 0, p)
    \* exec dir file effects how
    [] a[1] = "exec" -> LET p == a[2] \o Slash \o a[3] IN Res([f EXCEPT !.dbs = Put(@, p, Run(IF Db(f, p) = <<>> THEN EmptyDb ELSE Db(f, p), a[4]))], 0, p)
    [] a[1] = "noopen" -> Res(f, 0, <<>>)       \* a database that cannot be opened
    [] a[1] = "drop" -> LET p == a[2] \o Slash \o a[3] IN Res([f EXCEPT !.dbs = Put(@, p, [Db(f, p) EXCEPT !.made = 0, !.marks = <<>>])], 0, p)
    [] a[1] = "remove" -> LET p == a[2] \o Slash \o a[3] IN Res([f EXCEPT !.dbs = Del(@, p)], 0, p)
    \* another database's marks, attached read-only
    [] a[1] = "attach" -> Res(f, Db(f, a[2] \o Slash \o a[4]).marks, a[2] \o Slash \o a[3])
    \* another database of the same directory attached under a name, read, added to, and detached again: <<its marks, it is gone>>
    [] a[1] = "sattach" -> LET p == a[2] \o Slash \o a[4] IN
         Res([f EXCEPT !.dbs = Put(@, p, Run(Db(f, p), <<<<"mark", a[5]>>>>))], <<Db(f, p).marks, 1>>, p)
    [] a[1] = "norm" -> Res(f, [i \in 1..3 |-> NormT(a[i + 1], a[5])], <<>>)
    [] OTHER -> LET t == Text(a) IN Res(f, <<Cut(t, a[Len(a)]), Len(t)>>, <<>>)
Able(f, a) ==
  CASE a[1] = "init" -> IF InitOk(f, a) THEN Init2(f, a).ok ELSE FALSE
    [] a[1] \in {"add"} -> LET d == Db(f, a[2] \o Slash \o a[3]) IN IF d = <<>> THEN FALSE ELSE d.made # 0
    [] a[1] = "exec" -> LET d == Db(f, a[2] \o Slash \o a[3]) IN Runs(IF d = <<>> THEN EmptyDb ELSE d, a[4])
    [] a[1] \in {"drop", "remove"} -> Db(f, a[2] \o Slash \o a[3]) # <<>>
    [] a[1] \in {"attach", "sattach"} -> LET d == Db(f, a[2] \o Slash \o a[4]) IN IF Db(f, a[2] \o Slash \o a[3]) = <<>> \/ d = <<>> THEN FALSE ELSE d.made # 0 /\ (a[1] = "sattach" => a[3] # a[4])
    [] OTHER -> TRUE
Shown(f, p) == IF p = <<>> \/ Db(f, p) = <<>> THEN <<>> ELSE LET d == Db(f, p) IN <<d.ver, d.made, d.marks>>
Do(a) == LET x == Eff(fs, a) IN fs' = x.f /\ last' = [a |-> a, e |-> [r |-> x.r, o |-> Shown(x.f, x.p)]]
F0 == [scripts |-> <<>>, dbs |-> <<>>]
Init == fs = F0 /\ last = [a |-> <<"init0">>, e |-> [r |-> 0, o |-> <<>>]]
Reset == fs' = F0 /\ last' = [a |-> <<"reset">>, e |-> [r |-> 0, o |-> <<>>]]
\* a text result that is returned by a function without a length: only the text; paths that do not fit: not specified, but a text
Accept(x, g) == LET a == last'.a IN
  CASE a[1] \in {"pathtext2", "infotext2"} -> g.r[1] = x.r[1]
    [] a[1] = "norm" -> \A i \in 1..3 : IF Len(x.r[i]) > 127 THEN Len(g.r[i]) <= 127 ELSE g.r[i] = x.r[i]
    [] a[1] = "backup" /\ x.r[1] = 2 -> g.r[2] = x.r[2] /\ g.o = x.o      \* what a backup whose dump fails returns is not specified
    [] OTHER -> g = x
Next == \E a \in OPS : Able(fs, a) = TRUE /\ Do(a) /\ \A i \in 1..Len(fs'.dbs) : Len(fs'.dbs[i][2].marks) <= MAXMARKS
        /\ Len(fs'.scripts) <= MAXSCRIPTS
Spec == Init /\ [][Next]_vars
\* ---- laws
\* nothing but the database named changes; without recreation nothing is lost
OthersKept == [][\A i \in 1..Len(fs.dbs) : LET p == fs.dbs[i][1] IN Db(fs', p) = fs.dbs[i][2] \/ p = Eff(fs, last'.a).p]_vars
DataKept == [][last'.a[1] = "init" /\ last'.a[9][1] = 0 => \A i \in 1..Len(fs.dbs) : LET d == fs.dbs[i][2] IN Take(Db(fs', fs.dbs[i][1]).marks, Len(d.marks)) = d.marks]_vars
\* a backup leaves every database as it is; what it wrote restores the marks it found in a database of the same version
Restores == [][last'.a[1] = "backup" /\ last'.e.r[1] = 1 => fs'.dbs = fs.dbs /\
              LET d == Db(fs, Eff(fs, last'.a).p) IN d.made # 0 => Run([d EXCEPT !.marks = <<>>], Effs(fs', Script(last'.a[6], IF last'.a[7] = <<>> THEN last'.a[3] ELSE last'.a[7], INSERT, d.ver))) = d]_vars
\* opening again without recreation and without a migration from the version reached changes nothing
Settled == [][last'.a[1] = "init" /\ last'.a[9][1] = 0 /\ last'.e.r[1] = 0 /\ ~Has(fs, Script(last'.a[3], last'.a[5], MIGRATE, Db(fs, Eff(fs, last'.a).p).ver)) => fs' = fs]_vars
NewIff == [][last'.a[1] = "init" => (last'.e.r[1] = 1 <=> (Db(fs, Eff(fs, last'.a).p) = <<>> \/ last'.a[9][1] = 1))]_vars
EmitGraph == PrintT(ToJson([s |-> view, a |-> last'.a, e |-> last'.e, t |-> view']))
=============================================================================

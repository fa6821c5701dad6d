------------------------------- MODULE SqlSpec -------------------------------
(* The SQL layer: one table t(id integer primary key, a unique, b, c not null, d), whose columns other than id take any value as it is.
   Values: <<"z">> null, <<"i", digits>>, <<"s", bytes>>, <<"b", bytes>>, <<"d", 8 bytes>>; names are byte sequences.
   Expressions: <<"p", parameter>>, <<"v", value>>. Statements:
     <<"ins", style, columns, expressions>>   <<"upd", <<column, expression>> pairs, where>>   <<"del", where>>
     <<"sel", items, where, descending>>      <<"bad", number>> (cannot be prepared; 10 and 12 are no statement at all)
   where: <<column, expression>> pairs that must all be equal; items: <<kind, argument, alias>>, kinds c (column), ov (column b, which cannot be computed when b is 5), p, v.
   Fields: <<parameter, column, type, default datum, <<no_update, not_null, no_return, no_label>>>>; data: <<"-">> absent, <<"n", value>> null, <<"v", value>>. *)
EXTENDS JsonText, Json
CONSTANTS OPS, MAXROWS, IDS      \* operations, rows and row ids of the enumeration
VARIABLES db, last
vars == <<db, last>>
view == db
Z == <<"z">>
ID == <<105, 100>>
Cols == <<ID, <<97>>, <<98>>, <<99>>, <<100>>>>
Col(c) == LET I == {i \in 1..5 : Cols[i] = c} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
IntV(d) == <<"i", d>>
IncDec(d) == LET f == Fold(LAMBDA s, c : IF s.c = 0 THEN [c |-> 0, q |-> <<c>> \o s.q] ELSE IF c = 57 THEN [c |-> 1, q |-> <<48>> \o s.q] ELSE [c |-> 0, q |-> <<c + 1>> \o s.q],
                           [c |-> 1, q |-> <<>>], [i \in 1..Len(d) |-> d[Len(d) + 1 - i]]) IN IF f.c = 1 THEN <<49>> \o f.q ELSE f.q
DecDec(d) == LET f == Fold(LAMBDA s, c : IF s.c = 0 THEN [c |-> 0, q |-> <<c>> \o s.q] ELSE IF c = 48 THEN [c |-> 1, q |-> <<57>> \o s.q] ELSE [c |-> 0, q |-> <<c - 1>> \o s.q],
                           [c |-> 1, q |-> <<>>], [i \in 1..Len(d) |-> d[Len(d) + 1 - i]]).q IN IF Len(f) > 1 /\ f[1] = 48 THEN Tail(f) ELSE f
Plus1(d) == IF d[1] # 45 THEN IncDec(d) ELSE IF d = <<45, 49>> THEN <<48>> ELSE <<45>> \o DecDec(Tail(d))
IntLeq(x, y) == IF x[1] = 45 THEN (IF y[1] = 45 THEN NatLeq(Tail(y), Tail(x)) ELSE TRUE) ELSE IF y[1] = 45 THEN FALSE ELSE NatLeq(x, y)
FitsInt(d) == IF d[1] = 45 THEN NatLeq(Tail(d), <<50,49,52,55,52,56,51,54,52,56>>) ELSE NatLeq(d, <<50,49,52,55,52,56,51,54,52,55>>)

\* ---------------------------------------------------------------- the table
IsWrite(s) == s[1] \in {"ins", "upd", "del"}
Exprs(s) == CASE s[1] = "ins" -> {s[4][i] : i \in 1..Len(s[4])}
              [] s[1] = "upd" -> {s[2][i][2] : i \in 1..Len(s[2])} \cup {s[3][i][2] : i \in 1..Len(s[3])}
              [] s[1] = "del" -> {s[2][i][2] : i \in 1..Len(s[2])}
              [] s[1] = "sel" -> {s[2][i] : i \in {j \in 1..Len(s[2]) : s[2][j][1] = "p"}} \cup {s[3][i][2] : i \in 1..Len(s[3])}
              [] OTHER -> {}
Params(s) == {e[2] : e \in {x \in Exprs(s) : x[1] = "p"}}
Known(cs) == \A i \in 1..Len(cs) : Col(cs[i]) # 0
First(q) == [i \in 1..Len(q) |-> q[i][1]]
Prepares(s) == CASE s[1] = "ins" -> Len(s[3]) > 0 /\ Known(s[3])
                 [] s[1] = "upd" -> Len(s[2]) > 0 /\ Known(First(s[2])) /\ Known(First(s[3]))
                 [] s[1] = "del" -> Known(First(s[2]))
                 [] s[1] = "sel" -> Known(First(s[3])) /\ \A i \in 1..Len(s[2]) : s[2][i][1] = "c" => Col(s[2][i][2]) # 0
                 [] OTHER -> FALSE
\* what expression e is, under the bindings f (a function from parameters)
Eval(e, f) == IF e[1] = "p" THEN f[e[2]] ELSE e[2]
Match(row, w, f) == \A i \in 1..Len(w) : LET v == Eval(w[i][2], f) IN v # Z /\ row[Col(w[i][1])] = v
MaxId(rows) == IF rows = <<>> THEN <<48>> ELSE rows[Len(rows)][1][2]
Sane(rows) == /\ \A i \in 1..Len(rows) : rows[i][1][1] = "i" /\ rows[i][4] # Z
              /\ \A i \in 1..Len(rows), j \in 1..Len(rows) : i < j => rows[i][1] # rows[j][1] /\ (rows[i][2] = Z \/ rows[i][2] # rows[j][2])
Sorted(rows) == SortSeq(rows, LAMBDA x, y : x[1] # y[1] /\ IntLeq(x[1][2], y[1][2]))
NoRun(rows) == [rc |-> "err", at |-> "step", rows |-> rows, out |-> <<>>, n |-> 0, id |-> <<>>]
Stmt(rows, s, f) ==
  CASE s[1] = "ins" -> LET v(c) == LET I == {i \in 1..Len(s[3]) : s[3][i] = Cols[c]} IN IF I = {} THEN Z ELSE Eval(s[4][CHOOSE i \in I : TRUE], f)
                           row == [c \in 1..5 |-> IF c = 1 /\ v(1) = Z THEN IntV(Plus1(MaxId(rows))) ELSE v(c)]
                           new == Append(rows, row) IN
                       IF Sane(new) THEN [rc |-> "done", at |-> "", rows |-> Sorted(new), out |-> <<>>, n |-> 1, id |-> row[1][2]] ELSE NoRun(rows)
    [] s[1] = "upd" -> LET hit == {i \in 1..Len(rows) : Match(rows[i], s[3], f)}
                           set(c, old) == LET I == {i \in 1..Len(s[2]) : s[2][i][1] = Cols[c]} IN IF I = {} THEN old ELSE Eval(s[2][CHOOSE i \in I : TRUE][2], f)
                           new == [i \in 1..Len(rows) |-> IF i \in hit THEN [c \in 1..5 |-> set(c, rows[i][c])] ELSE rows[i]] IN
                       IF Sane(new) THEN [rc |-> "done", at |-> "", rows |-> Sorted(new), out |-> <<>>, n |-> Cardinality(hit), id |-> <<>>] ELSE NoRun(rows)
    [] s[1] = "del" -> LET keep == SelectSeq(rows, LAMBDA r : ~Match(r, s[2], f)) IN
                       [rc |-> "done", at |-> "", rows |-> keep, out |-> <<>>, n |-> Len(rows) - Len(keep), id |-> <<>>]
    [] s[1] = "sel" -> LET hits == SelectSeq(rows, LAMBDA r : Match(r, s[3], f))
                           q == IF s[4] = 1 THEN [i \in 1..Len(hits) |-> hits[Len(hits) + 1 - i]] ELSE hits
                           bad(r) == r[3] = IntV(<<53>>) /\ \E i \in 1..Len(s[2]) : s[2][i][1] = "ov"
                           B == {i \in 1..Len(q) : bad(q[i])}
                           n == IF B = {} THEN Len(q) ELSE (CHOOSE i \in B : \A j \in B : i <= j) - 1
                           val(r, it) == CASE it[1] = "c" -> r[Col(it[2])] [] it[1] = "ov" -> r[3] [] OTHER -> Eval(it, f)
                           name(it) == IF it[3] = <<>> THEN it[2] ELSE it[3] IN
                       [rc |-> IF B = {} THEN "done" ELSE "err", at |-> "step", rows |-> rows, n |-> 0, id |-> <<>>,
                        out |-> [i \in 1..n |-> [j \in 1..Len(s[2]) |-> <<name(s[2][j]), val(q[i], s[2][j])>>]]]
\* ---------------------------------------------------------------- binding
ZeroOf(t) == CASE t \in {"int", "i64"} -> IntV(<<48>>) [] t = "text" -> <<"s", <<>>>> [] OTHER -> <<"b", <<>>>>
FieldAt(fs, p) == LET I == {i \in 1..Len(fs) : fs[i][1] = p} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
Datum(fs, data, i) == IF data[1] = "d" /\ data[2][i] # <<"-">> THEN data[2][i] ELSE fs[i][4]
NotNull(f) == f[5][2] = 1
Bound(s, fs, data, i) == LET d == Datum(fs, data, i) f == fs[i] IN
  CASE d = <<"-">> -> IF s[1] = "ins" /\ NotNull(f) THEN ZeroOf(f[3]) ELSE Z
    [] d[1] = "n" -> IF NotNull(f) THEN d[2] ELSE Z
    [] OTHER -> d[2]
\* info: <<"none">> or <<"f", fields>>; without fields nothing is bound or checked
Exec(D, s, info, data) ==
  IF ~Prepares(s) THEN [NoRun(D.rows) EXCEPT !.at = IF s[1] = "bad" /\ s[2] \in {10, 12} THEN "step" ELSE "prepare"]
  ELSE IF info[1] = "f" /\ \E p \in Params(s) : FieldAt(info[2], p) = 0 THEN [NoRun(D.rows) EXCEPT !.at = "unbound"]
  ELSE IF D.mode = "int" \/ (D.mode = "ro" /\ IsWrite(s)) THEN NoRun(D.rows)
  ELSE Stmt(D.rows, s, [p \in Params(s) |-> IF info[1] = "none" THEN Z ELSE Bound(s, info[2], data, FieldAt(info[2], p))])
\* the outcome of the first step alone
Step1(x) == IF x.out # <<>> THEN "row" ELSE x.rc

\* ---------------------------------------------------------------- JSON results
Obj0 == <<"o", <<>>>>
Get(o, k) == LET I == {i \in 1..Len(o[2]) : o[2][i][1] = k} IN IF I = {} THEN <<>> ELSE o[2][CHOOSE i \in I : TRUE][2]
Set(o, k, v) == <<"o", Put(o[2], k, v)>>
ERR == <<101, 114, 114, 111, 114>>
Fail(o) == Set(o, ERR, <<"err">>)
\* a status: <<"no">> none wanted, <<"new">>, <<"v", value>> to be extended; after: <<"N">> nothing, or the value
Obj(st) == IF st[1] = "v" THEN st[2] ELSE Obj0
End(st, v) == IF st[1] = "no" THEN <<"N">> ELSE v
After0(st) == IF st[1] = "v" THEN st[2] ELSE <<"N">>
FieldOfCol(fs, c) == LET I == {i \in 1..Len(fs) : fs[i][2] = c} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
Flag(info, c, n) == info[1] = "f" /\ LET i == FieldOfCol(info[2], c) IN i # 0 /\ info[2][i][5][n] = 1
RowJson(row, info) == IF Len(row) = 1 /\ ~Flag(info, row[1][1], 3) /\ Flag(info, row[1][1], 4) THEN row[1][2]
                      ELSE <<"o", Fold(LAMBDA m, p : IF Flag(info, p[1], 3) THEN m ELSE Put(m, p[1], p[2]), <<>>, row)>>
Rows(x, info) == [i \in 1..Len(x.out) |-> RowJson(x.out[i], info)]
Merged(o, r) == IF o[1] = "o" /\ r[1] = "o" THEN Fold(LAMBDA m, p : Set(m, p[1], p[2]), o, r[2]) ELSE o
\* R(rows after, result)
R(x, r) == [rows |-> x.rows, r |-> r]
SelectR(D, info, data, s, st) == LET x == Exec(D, s, info, data) IN
  IF x.rc = "err" THEN R(x, <<"err", IF st[1] = "new" THEN Fail(Obj0) ELSE After0(st)>>)
  ELSE R(x, <<"done", End(st, IF st[1] = "v" THEN <<"a", st[2][2] \o Rows(x, info)>> ELSE <<"a", Rows(x, info)>>)>>)
Select1R(D, info, data, s, st) == LET x == Exec(D, s, info, data) IN
  IF x.rc = "err" THEN R(x, <<"err", End(st, Fail(Obj(st)))>>)
  ELSE IF x.out = <<>> THEN R(x, <<"done", After0(st)>>)
  ELSE LET one == RowJson(x.out[1], info) IN R(x, <<"done", End(st, IF st[1] = "v" THEN Merged(st[2], one) ELSE one)>>)
SelectAsR(D, info, data, s, st, k) == LET x == Exec(D, s, info, data) o == Obj(st) old == Get(o, k) rs == Rows(x, info) IN
  IF x.rc = "err" THEN R(x, <<"err", End(st, Fail(o))>>)
  ELSE R(x, <<"done", End(st, Set(o, k, <<"a", IF old = <<>> THEN rs ELSE IF old[1] = "a" THEN old[2] \o rs ELSE <<old>> \o rs>>))>>)
Select1AsR(D, info, data, s, st, k) == LET x == Exec(D, s, info, data) o == Obj(st) old == Get(o, k) IN
  IF x.rc = "err" THEN R(x, <<"err", End(st, Fail(o))>>)
  ELSE IF x.out = <<>> THEN R(x, <<"done", End(st, o)>>)
  ELSE LET one == RowJson(x.out[1], info) IN R(x, <<"done", End(st, Set(o, k, IF old = <<>> THEN one ELSE Merged(old, one)))>>)
\* rows shown one by one until the callback says stop (0: it never does)
IterR(D, info, data, s, st, stop) == LET x == Exec(D, s, info, data) IN
  IF stop > 0 /\ Len(x.out) >= stop THEN R(x, <<"done", After0(st), stop>>)
  ELSE R(x, <<x.rc, IF x.rc = "err" /\ st[1] = "new" THEN Fail(Obj0) ELSE After0(st), Len(x.out)>>)
RunR(D, info, data, s, st) == LET x == Exec(D, s, info, data) IN R(x, <<Step1(x), End(st, IF x.at \in {"prepare", "unbound"} THEN Fail(Obj(st)) ELSE Obj(st))>>)
LASTID == <<108,97,115,116,95,105,110,115,101,114,116,95,114,111,119,105,100>>
UPDATED == <<117,112,100,97,116,101,100,95,114,111,119,115>>
DELETED == <<100,101,108,101,116,101,100>>
WARNING == <<119,97,114,110,105,110,103>>
Nothing == <<"s", <<110,111,116,104,105,110,103,32,116,111,32,117,112,100,97,116,101,32,116>>>>
InsertR(D, info, data, s, st, k, want) == LET x == Exec(D, s, info, data) o == Obj(st) IN
  IF x.rc # "done" THEN R(x, <<"err", End(st, Fail(o)), <<>>>>)
  ELSE R(x, <<"done", End(st, Set(o, IF k = <<>> THEN LASTID ELSE k, IntV(x.id))), IF want = 0 THEN <<>> ELSE IF FitsInt(x.id) THEN x.id ELSE <<63>>>>)
DeleteR(D, info, data, s, st, k) == LET x == Exec(D, s, info, data) o == Obj(st) IN
  IF x.rc # "done" THEN R(x, <<"err", End(st, Fail(o))>>)
  ELSE R(x, <<"done", End(st, Set(o, IF k = <<>> THEN DELETED ELSE k, IntV(DecN(x.n))))>>)
\* stmts: <<select, insert, update>> (the update may be <<>>: none)
UpdIfR(D, info, data, ss, st) == LET x == Exec(D, ss[1], info, data) c == Step1(x) o == Obj(st) IN
  IF c = "err" THEN R(x, <<"err", End(st, Fail(o))>>)
  ELSE IF c = "done" THEN R(x, <<"done", End(st, o)>>)
  ELSE IF ss[3] = <<>> THEN R(x, <<"done", End(st, Set(o, WARNING, Nothing))>>)
  ELSE LET u == Exec(D, ss[3], info, data) IN
       IF u.rc # "done" THEN R(u, <<"err", End(st, Fail(o))>>) ELSE R(u, <<"done", End(st, Set(o, UPDATED, IntV(DecN(u.n))))>>)
UpsertR(D, info, data, ss, st) == LET x == Exec(D, ss[1], info, data) c == Step1(x) o == Obj(st) IN
  IF c = "err" THEN R(x, <<"err", End(st, Fail(o))>>)
  ELSE IF c = "done" THEN LET u == InsertR(D, info, data, ss[2], st, <<>>, 0) IN [u EXCEPT !.r = <<u.r[1], u.r[2]>>]
  ELSE IF ss[3] = <<>> THEN R(x, <<"done", End(st, Set(o, WARNING, Nothing))>>)
  ELSE LET u == Exec(D, ss[3], info, data) IN R(u, <<u.rc, End(st, IF u.rc = "done" THEN o ELSE Fail(o))>>)
Sel1InsR(D, info, data, ss, st) == LET x == Exec(D, ss[1], info, data) IN
  IF x.rc = "err" \/ x.out # <<>> THEN Select1R(D, info, data, ss[1], st)
  ELSE LET u == InsertR(D, info, data, ss[2], st, <<>>, 0) IN [u EXCEPT !.r = <<u.r[1], u.r[2]>>]

\* ---------------------------------------------------------------- operations driven by a JSON object
Kind(f, v) == CASE f[3] = "int" -> v[1] = "i" /\ FitsInt(v[2]) [] f[3] = "i64" -> v[1] = "i" [] f[3] = "text" -> v[1] = "s" [] OTHER -> FALSE
\* members of the wrong kind
Wrong(fs, json) == {json[2][j][1] : j \in {k \in 1..Len(json[2]) : LET i == FieldOfCol(fs, json[2][k][1]) v == json[2][k][2] IN i # 0 /\ v # Z /\ ~Kind(fs[i], v)}}
\* the members looked at: all of them, unless one has the wrong kind; then any of the others
Choices(fs, json) == LET W == Wrong(fs, json) N == {json[2][j][1] : j \in 1..Len(json[2])} IN IF W = {} THEN {N} ELSE SUBSET (N \ W)
Populate(fs, given, json, U) ==
  Fold(LAMBDA s, m : IF m[1] \notin U THEN s ELSE
         LET i == FieldOfCol(fs, m[1]) v == m[2] IN
         IF i = 0 THEN [s EXCEPT !.unused = Append(@, m[1])]
         ELSE IF v # Z THEN [s EXCEPT !.used = Append(@, m[1]), !.data[i] = <<"v", v>>]
         ELSE IF NotNull(fs[i]) THEN s ELSE [s EXCEPT !.used = Append(@, m[1]), !.data[i] = <<"n", Z>>],
       [bad |-> Wrong(fs, json) # {}, used |-> <<>>, unused |-> <<>>, data |-> given], json[2])
FieldsOf(json) == LET ms == SelectSeq(json[2], LAMBDA m : m[2] # Z) IN
  [i \in 1..Len(ms) |-> <<<<64>> \o ms[i][1], ms[i][1], IF ms[i][2][1] = "i" THEN "i64" ELSE "text", <<"v", ms[i][2]>>, <<0, 0, 0, 0>>>>]
\* cfg: <<info, given data, select, insert (<<>>: composed), update (<<>>: none), <<"none">> or <<"w", where of the composed update>>>>
Compose(cfg, fs, data, json) ==
  LET has(i) == Datum(fs, data, i) # <<"-">>
      at == Upto(Len(fs))
      I == SelectSeq(at, LAMBDA i : has(i) \/ NotNull(fs[i]))
      U == SelectSeq(at, LAMBDA i : Get(json, fs[i][2]) # <<>> /\ fs[i][5][1] = 0 /\ has(i))
      ins == IF cfg[4] # <<>> THEN cfg[4] ELSE <<"ins", 0, [k \in 1..Len(I) |-> fs[I[k]][2]], [k \in 1..Len(I) |-> <<"p", fs[I[k]][1]>>]>>
      upd == IF cfg[5] # <<>> THEN cfg[5] ELSE IF cfg[6][1] = "none" \/ Len(U) = 0 THEN <<>> ELSE <<"upd", [k \in 1..Len(U) |-> <<fs[U[k]][2], <<"p", fs[U[k]][1]>>>>], cfg[6][2]>> IN
  <<cfg[3], ins, upd>>
DEBUG == <<100, 101, 98, 117, 103>>
USED == <<117,115,101,100,95,107,101,121,115>>
UNUSED == <<117,110,117,115,101,100,95,107,101,121,115>>
Names(q) == {q[i] : i \in 1..Len(q)}
OpR(D, cfg, kind, json, st, U) ==
  LET own == cfg[1][1] = "none"
      p == IF own THEN [bad |-> FALSE, used |-> <<>>, unused |-> <<>>, data |-> <<>>] ELSE Populate(cfg[1][2], cfg[2], json, U)
      fs == IF own THEN FieldsOf(json) ELSE cfg[1][2]
      data == IF own THEN <<"none">> ELSE <<"d", p.data>>
      ss == Compose(cfg, fs, data, json)
      info == <<"f", fs>>
      x == CASE kind = "ins" -> InsertR(D, info, data, ss[2], st, ID, 0)
             [] kind = "upsert" -> UpsertR(D, info, data, ss, st)
             [] kind \in {"upd", "updif"} -> UpdIfR(D, info, data, ss, st)
             [] kind = "sel" -> SelectR(D, info, data, ss[1], st)
             [] kind = "sel1ins" -> Sel1InsR(D, info, data, ss, st)
      v == x.r[2]
      w == IF st[1] = "no" THEN v ELSE IF v[1] = "N" THEN Obj0 ELSE v
      u == IF st[1] = "no" \/ w[1] # "o" THEN w ELSE LET g == Set(w, DEBUG, <<"dbg", Names(p.used), Names(p.unused)>>) IN IF p.bad THEN Fail(g) ELSE g IN
  [x EXCEPT !.r = <<x.r[1], u>>]
BindR(D, fs, given, json, U) == LET p == Populate(fs, given, json, U) IN
  [rows |-> D.rows, r |-> <<[i \in 1..Len(fs) |-> p.data[i]], Names(p.used), Names(p.unused), p.bad>>]

\* ---------------------------------------------------------------- joins
\* a field takes part when it has a datum (or default): the element's member replaces that
JoinOne(D, info, data, s, k, e) ==
  LET fs == info[2]
      part(i) == Datum(fs, data, i) # <<"-">>
      ok(i) == LET v == Get(e, fs[i][2]) IN v # <<>> /\ Kind(fs[i], v)
      bad == \E i \in 1..Len(fs) : part(i) /\ ~ok(i)
      d == <<"d", [i \in 1..Len(fs) |-> IF part(i) THEN <<"v", Get(e, fs[i][2])>> ELSE <<"-">>]>> IN
  IF bad THEN [e |-> Fail(e), stop |-> TRUE]
  ELSE IF k = <<>> THEN LET x == Select1R(D, info, d, s, <<"v", e>>) IN [e |-> x.r[2], stop |-> x.r[1] = "err"]
  ELSE LET x == SelectR(D, info, d, s, <<"new">>) IN [e |-> Set(e, k, x.r[2]), stop |-> x.r[1] = "err"]
JoinR(D, json, info, data, s, k) ==
  IF json[1] = "o" THEN [rows |-> D.rows, r |-> JoinOne(D, info, data, s, k, json).e]
  ELSE LET f == Fold(LAMBDA q, e : IF q.stop THEN [q EXCEPT !.es = Append(@, e)] ELSE LET x == JoinOne(D, info, data, s, k, e) IN [es |-> Append(q.es, x.e), stop |-> x.stop], [es |-> <<>>, stop |-> FALSE], json[2]) IN
       [rows |-> D.rows, r |-> <<"a", f.es>>]
\* ---------------------------------------------------------------- the next integer
NextR(D, c, w) ==
  LET x == Exec(D, <<"sel", <<<<"c", c, <<>>>>>>, w, 0>>, <<"none">>, <<"none">>)
      vs == SelectSeq([i \in 1..Len(x.out) |-> x.out[i][1][2]], LAMBDA v : v # Z)
      m == Fold(LAMBDA a, v : IF a[1] = "i" /\ v[1] = "i" THEN (IF IntLeq(a[2], v[2]) THEN v ELSE a) ELSE IF a[1] = "i" THEN v ELSE a, IF vs = <<>> THEN Z ELSE vs[1], vs) IN
  [rows |-> D.rows, r |-> IF x.rc = "err" THEN <<45, 49>> ELSE IF vs = <<>> THEN <<49>> ELSE IF m[1] = "i" /\ FitsInt(m[2]) /\ FitsInt(Plus1(m[2])) THEN Plus1(m[2]) ELSE <<45, 49>>]
\* ---------------------------------------------------------------- bulk insertion
BulkR(D, es) == [rows |-> Fold(LAMBDA rows, e : LET ms == e[2] IN
                     Exec([D EXCEPT !.rows = rows], <<"ins", 0, First(ms), [i \in 1..Len(ms) |-> <<"v", ms[i][2]>>]>>, <<"none">>, <<"none">>).rows, D.rows, es), r |-> 0]

\* ---------------------------------------------------------------- the operations
Eff(D, a, U) ==
  CASE a[1] = "run" -> RunR(D, a[3], a[4], a[2], a[5])
    [] a[1] = "insert" -> InsertR(D, a[3], a[4], a[2], a[5], a[6], a[7])
    [] a[1] = "delete" -> DeleteR(D, a[3], a[4], a[2], a[5], a[6])
    [] a[1] \in {"update", "updif"} -> UpdIfR(D, a[3], a[4], a[2], a[5])
    [] a[1] = "upsert" -> UpsertR(D, a[3], a[4], a[2], a[5])
    [] a[1] = "sel1ins" -> Sel1InsR(D, a[3], a[4], a[2], a[5])
    [] a[1] = "select" -> SelectR(D, a[3], a[4], a[2], a[5])
    [] a[1] = "select1" -> Select1R(D, a[3], a[4], a[2], a[5])
    [] a[1] = "selas" -> SelectAsR(D, a[3], a[4], a[2], a[5], a[6])
    [] a[1] = "sel1as" -> Select1AsR(D, a[3], a[4], a[2], a[5], a[6])
    [] a[1] = "iter" -> IterR(D, a[3], a[4], a[2], a[5], a[6])
    [] a[1] = "op" -> OpR(D, a[2], a[3], a[4], a[5], U)
    [] a[1] = "bind" -> BindR(D, a[2], a[3], a[4], U)
    [] a[1] = "join" -> JoinR(D, a[2], a[3], a[4], a[5], a[6])
    [] a[1] = "next" -> NextR(D, a[2], a[3])
    [] a[1] = "bulk" -> BulkR(D, a[2])
    [] a[1] = "mode" -> [rows |-> D.rows, r |-> 0]
Looked(a) == CASE a[1] = "op" -> IF a[2][1][1] = "none" THEN {{}} ELSE Choices(a[2][1][2], a[4]) [] a[1] = "bind" -> Choices(a[2], a[4]) [] OTHER -> {{}}
\* o: the rows, and whether a statement was left open (never)
Out(x) == [r |-> x.r, o |-> <<x.rows, 0>>]
Becomes(a, x) == db' = [rows |-> x.rows, mode |-> IF a[1] = "mode" THEN a[2] ELSE db.mode] /\ last' = [a |-> a, e |-> Out(x)]
OneOf(S) == CHOOSE x \in S : TRUE
Do(a) == Becomes(a, Eff(db, a, UNION Looked(a)))
Init == db = [rows |-> <<>>, mode |-> "ok"] /\ last = [a |-> <<"init">>, e |-> [r |-> 0, o |-> <<<<>>, 0>>]]
Reset == db' = [rows |-> <<>>, mode |-> "ok"] /\ last' = [a |-> <<"reset">>, e |-> [r |-> 0, o |-> <<<<>>, 0>>]]
\* ---- what the driver shows, in the terms above: members of objects in any order, an error is any text or list that is not empty
BytesList(v) == [i \in 1..Len(v[2]) |-> v[2][i][2]]
ListSet(v) == IF v = <<>> THEN {} ELSE Names(BytesList(v))
RECURSIVE Show(_)
Show(v) == IF v[1] = "o" THEN <<"o", {LET k == v[2][i][1] x == v[2][i][2] IN
                   <<k, IF k = ERR /\ (IF x[1] \in {"s", "a"} THEN Len(x[2]) > 0 ELSE FALSE) THEN <<"err">>
                        ELSE IF k = DEBUG /\ x[1] = "o" THEN <<"dbg", ListSet(Get(x, USED)), ListSet(Get(x, UNUSED))>>
                        ELSE Show(x)>> : i \in 1..Len(v[2])}>>
           ELSE IF v[1] = "a" THEN <<"a", [i \in 1..Len(v[2]) |-> Show(v[2][i])]>> ELSE v
\* the same without touching what is abstract already
RECURSIVE Plain(_)
Plain(v) == IF v[1] = "o" THEN <<"o", {<<v[2][i][1], Plain(v[2][i][2])>> : i \in 1..Len(v[2])}>>
            ELSE IF v[1] = "a" THEN <<"a", [i \in 1..Len(v[2]) |-> Plain(v[2][i])]>> ELSE v
Agrees(a, x, g) ==
  /\ g.o = x.o
  /\ CASE a[1] \in {"mode", "bulk"} -> TRUE
       [] a[1] = "next" -> g.r = x.r
       [] a[1] = "join" -> Show(g.r) = Plain(x.r)
       [] a[1] = "bind" -> /\ Len(g.r[1]) = Len(x.r[1]) /\ \A i \in 1..Len(x.r[1]) : IF x.r[1][i][1] = "n" THEN g.r[1][i][1] = "n" ELSE g.r[1][i] = x.r[1][i]
                           /\ (g.r[2] = <<"N">> \/ ListSet(g.r[2]) = x.r[2]) /\ (g.r[3] = <<"N">> \/ ListSet(g.r[3]) = x.r[3])
                           /\ (g.r[4] = <<"N">> \/ (Len(g.r[4][2]) > 0) = x.r[4])
       [] OTHER -> /\ g.r[1] = x.r[1]
                   /\ (IF a[1] = "run" /\ db.mode = "int" THEN Show(g.r[2]) \in {Plain(x.r[2]), Plain(End(a[5], Fail(Obj(a[5]))))}      \* preparing may be interrupted already
                       ELSE Show(g.r[2]) = Plain(x.r[2]))
                   /\ CASE a[1] = "insert" -> x.r[3] = <<63>> \/ g.r[3] = x.r[3] [] a[1] = "iter" -> g.r[3] = x.r[3] [] OTHER -> TRUE
Accept(x, g) == Agrees(last'.a, x, g)
DoFor(a, g) == LET L == Looked(a) IN IF Cardinality(L) = 1 THEN Do(a)
               ELSE LET C == {U \in L : Agrees(a, Out(Eff(db, a, U)), g)} IN Becomes(a, Eff(db, a, IF C = {} THEN UNION L ELSE OneOf(C)))
\* ---- enumeration: the operations given
Next == \E a \in OPS : LET q == Eff(db, a, UNION Looked(a)).rows IN Len(q) <= MAXROWS /\ (\A i \in 1..Len(q) : q[i][1][2] \in IDS) /\ Do(a)
Spec == Init /\ [][Next]_vars
\* ---- laws
TypeOK == Sane(db.rows) /\ \A i \in 1..(Len(db.rows) - 1) : IntLeq(db.rows[i][1][2], db.rows[i + 1][1][2])
Status(e) == IF e.r[2][1] = "o" THEN e.r[2] ELSE Obj0
Plainly == {"run", "insert", "delete", "update", "updif", "upsert", "sel1ins", "select", "select1", "selas", "sel1as", "iter", "op"}
\* a failing operation changes no row, and says so wherever it can; others do not claim an error (an op also reports members of the wrong kind)
FailLaw == [][last'.a[1] \in Plainly => LET e == last'.e a == last'.a has == Get(Status(e), ERR) # <<>> IN
              /\ (e.r[1] = "err" => db'.rows = db.rows)
              /\ (e.r[1] = "err" /\ a[1] # "run" /\ a[5][1] = "new" => has)
              /\ (e.r[1] # "err" /\ a[1] # "op" => ~has)]_vars
\* reading changes nothing
ReadLaw == [][last'.a[1] \in {"select", "select1", "selas", "sel1as", "iter", "bind", "join", "next", "mode"} => db'.rows = db.rows]_vars
\* with a successful upsert the lookup finds a row, if it asks for what the insertion wrote; no other row is added or lost
UpsertLaw == [][last'.a[1] = "upsert" /\ last'.e.r[1] = "done" =>
                  LET a == last'.a before == Step1(Exec(db, a[2][1], a[3], a[4])) IN
                  Len(db'.rows) = Len(db.rows) + (IF before = "row" THEN 0 ELSE 1)]_vars
\* the count reported is the number of rows that are gone
CountLaw == [][last'.a[1] = "delete" /\ last'.e.r[1] = "done" /\ last'.a[5][1] = "new" /\ last'.a[6] = <<>> =>
                  Get(last'.e.r[2], DELETED) = IntV(DecN(Len(db.rows) - Len(db'.rows)))]_vars
EmitGraph == PrintT(ToJson([s |-> db, a |-> last'.a, e |-> last'.e, t |-> db']))
=============================================================================

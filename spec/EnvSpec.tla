------------------------------ MODULE EnvSpec ------------------------------
(* cee_env and cee_closure: lexical name resolution and closure calls.
   An environment has an optional outer environment and an optional (possibly shared) map of variables. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS NAMES, VALS, MAXENV, MAXCLO, SHARE, ARGS
VARIABLES env, maps, clo, last
vars == <<env, maps, clo, last>>
view == <<env, maps, clo>>
\* env: sequence of [o |-> outer, m |-> map number or 0]; maps: sequence of functions from names to values
Look(m, k) == IF m = 0 THEN 0 ELSE IF k \in DOMAIN maps'[m] THEN maps'[m][k] ELSE 0
RECURSIVE Resolve(_, _)
Resolve(e, k) == IF e = 0 THEN 0 ELSE IF Look(env'[e].m, k) # 0 THEN Look(env'[e].m, k) ELSE Resolve(env'[e].o, k)
Obs == [i \in 1..Len(env') |-> <<Resolve(i, "x"), Resolve(i, "y"), Resolve(i, "zz"), env'[i].o>>]
Fin(a, r) == last' = [a |-> a, e |-> [r |-> r, o |-> Obs]]
None == <<0, 0>>
Init == env = <<>> /\ maps = <<>> /\ clo = <<>> /\ last = [a |-> <<"init">>, e |-> [r |-> None, o |-> <<>>]]
Reset == env' = <<>> /\ maps' = <<>> /\ clo' = <<>> /\ last' = [a |-> <<"reset">>, e |-> [r |-> 0, o |-> 0]]
Env(a) == /\ maps' = IF a[3] = 1 THEN Append(maps, <<>>) ELSE maps
          /\ env' = Append(env, [o |-> a[2], m |-> IF a[3] = 1 THEN Len(maps) + 1 ELSE 0])
          /\ UNCHANGED clo /\ Fin(a, None)
Shared(a) == env' = Append(env, [o |-> a[2], m |-> env[a[3]].m]) /\ UNCHANGED <<maps, clo>> /\ Fin(a, None)
Bind(a) == LET m == env[a[2]].m IN
           maps' = [maps EXCEPT ![m] = (a[3] :> a[4]) @@ @] /\ UNCHANGED <<env, clo>> /\ Fin(a, None)
Unbind(a) == LET m == env[a[2]].m IN
           maps' = [maps EXCEPT ![m] = [k \in (DOMAIN @) \ {a[3]} |-> @[k]]] /\ UNCHANGED <<env, clo>> /\ Fin(a, None)
Clo(a) == clo' = Append(clo, a[2]) /\ UNCHANGED <<env, maps>> /\ Fin(a, None)
Call(a) == LET e == clo[a[2]] IN UNCHANGED <<env, maps, clo>> /\ Fin(a, <<Resolve(e, "x"), e>> \o SubSeq(a, 3, Len(a)))
Do(a) == CASE a[1] = "env" -> Env(a) [] a[1] = "shared" -> Shared(a) [] a[1] = "bind" -> Bind(a) [] a[1] = "unbind" -> Unbind(a)
           [] a[1] = "clo" -> Clo(a) [] a[1] = "call" -> Call(a)
E == 1..Len(env)
Ops == (IF Len(env) < MAXENV THEN {<<"env", o, v>> : o \in E \cup {0}, v \in 0..1} ELSE {})
       \cup (IF SHARE /\ Len(env) < MAXENV THEN {<<"shared", o, i>> : o \in E \cup {0}, i \in {j \in E : env[j].m # 0}} ELSE {})
       \cup {<<"bind", i, k, v>> : i \in {j \in E : env[j].m # 0}, k \in NAMES, v \in VALS}
       \cup {<<"unbind", i, k>> : i \in {j \in E : env[j].m # 0}, k \in NAMES}
       \cup (IF Len(clo) < MAXCLO THEN {<<"clo", i>> : i \in E \cup {0}} ELSE {})
       \cup {<<"call", c>> \o x : c \in 1..Len(clo), x \in ARGS}
Next == \E a \in Ops : Do(a)
Spec == Init /\ [][Next]_vars
\* the innermost binding wins, and a binding in an environment that is not on the chain has no influence
Chain(e) == LET RECURSIVE C(_) C(i) == IF i = 0 THEN {} ELSE {i} \cup C(env[i].o) IN C(e)
Lexical == \A i \in E : LET seen == last.e.o[i][1] IN last.a[1] # "init" =>
              /\ seen = 0 <=> \A j \in Chain(i) : env[j].m = 0 \/ "x" \notin DOMAIN maps[env[j].m]
              /\ (env[i].m # 0 /\ "x" \in DOMAIN maps[env[i].m]) => seen = maps[env[i].m]["x"]
EmitGraph == PrintT(ToJson([s |-> view, a |-> last'.a, e |-> last'.e, t |-> view']))
=============================================================================

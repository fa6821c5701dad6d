----------------------------- MODULE JsonParse -----------------------------
(* Parsing histories under one state. docs: the values parsed so far, which stay as they are. The buffer given to the parser is
   followed in memory by cont, which must not matter. text: the text enumerated so far (families grow it token by token). *)
EXTENDS JsonText, Json
CONSTANTS TOKS, MAXTOK, PRUNE, FORCE, WRAP, CONTS
VARIABLES text, n, docs, last
vars == <<text, n, docs, last>>
view == <<text, n>>
Outcome(s, f) == LET p == Parse(s, f) IN IF p.ok THEN [r |-> <<0>>, v |-> <<Typed(p.v)>>] ELSE [r |-> <<1, LineAt(s, p.next)>>, v |-> <<>>]
Init == text = <<>> /\ n = 0 /\ docs = <<>> /\ last = [a |-> <<"init">>, e |-> [r |-> <<>>, o |-> <<>>]]
Reset == text' = <<>> /\ n' = 0 /\ docs' = <<>> /\ last' = [a |-> <<"reset">>, e |-> [r |-> 0, o |-> 0]]
\* parse force text cont
DoParse(a) == /\ a[1] = "parse"
              /\ LET o == Outcome(a[3], a[2]) IN docs' = docs \o o.v /\ last' = [a |-> a, e |-> [r |-> o.r, o |-> docs']]
              /\ UNCHANGED <<text, n>>
\* lbuf text: parsed with the end enforced, under a state of its own
\* deep force text: the value is reported flat, and not kept
Do(a) == IF a[1] = "deep" THEN LET o == Outcome(a[3], a[2]) IN last' = [a |-> a, e |-> [r |-> o.r, o |-> IF o.v = <<>> THEN <<>> ELSE Flat(o.v[1])]] /\ UNCHANGED <<text, n, docs>>
         ELSE IF a[1] = "lbuf" THEN LET o == Outcome(a[2], 1) IN last' = [a |-> a, e |-> [r |-> o.v, o |-> docs]] /\ UNCHANGED <<text, n, docs>>
         ELSE DoParse(a)
\* a text is worth continuing unless something in it is already wrong
Viable(s) == LET p == Parse(s, 1) IN p.ok \/ p.next > Len(s)
Wrapped(s) == CASE WRAP = "no" -> s [] WRAP = "quote" -> <<34>> \o s \o <<34>> [] WRAP = "esc" -> <<34, 92, 110>> \o s \o <<34>> [] WRAP = "key" -> <<123, 34>> \o s \o <<34, 58, 49, 125>> [] WRAP = "array" -> <<91>> \o s \o <<93>>
Next == /\ n < MAXTOK /\ (PRUNE => Viable(text))
        /\ \E t \in TOKS, f \in FORCE, c \in CONTS : /\ text' = text \o t /\ n' = n + 1 /\ UNCHANGED docs
                             /\ LET w == Wrapped(text') o == Outcome(w, f) IN last' = [a |-> <<"parse", f, w, c>>, e |-> [r |-> o.r, o |-> o.v]]
Spec == Init /\ [][Next]_vars
\* ---- the grammar, stated as a definition of the language instead of a way to recognise it (RFC 8259)
AllWs(w) == \A i \in 1..Len(w) : w[i] \in White
DigitsPlus(w) == w # <<>> /\ \A i \in 1..Len(w) : IsDigit(w[i])
IsInt(w) == w # <<>> /\ LET u == IF w[1] = 45 THEN Drop(w, 1) ELSE w IN DigitsPlus(u) /\ (u[1] = 48 => Len(u) = 1)
IsFrac(w) == w = <<>> \/ (w[1] = 46 /\ DigitsPlus(Drop(w, 1)))
IsExp(w) == w = <<>> \/ (w[1] \in {69, 101} /\ (DigitsPlus(Drop(w, 1)) \/ (Len(w) > 2 /\ w[2] \in {43, 45} /\ DigitsPlus(Drop(w, 2)))))
IsNumber(w) == \E i \in 1..Len(w) : \E j \in i..Len(w) : IsInt(Take(w, i)) /\ IsFrac(Sub(w, i + 1, j - i)) /\ IsExp(Drop(w, j))
IsString(w) == Len(w) >= 2 /\ w[1] = 34 /\ Str(w, 2, <<>>, FALSE, 0).next = Len(w) + 1
RECURSIVE IsValue(_)
RECURSIVE IsElems(_)
RECURSIVE IsMembers(_)
Trim(w) == LET u == Drop(w, PrefixIn(w, White)) IN Chop(u, SuffixIn(u, White))
IsPadded(w) == IsValue(Trim(w))
IsMember(w) == \E k \in 1..Len(w) : w[k] = 58 /\ IsString(Trim(Take(w, k - 1))) /\ IsPadded(Drop(w, k))
IsElems(w) == IsPadded(w) \/ \E k \in 1..Len(w) : w[k] = 44 /\ IsPadded(Take(w, k - 1)) /\ IsElems(Drop(w, k))
IsMembers(w) == IsMember(w) \/ \E k \in 1..Len(w) : w[k] = 44 /\ IsMember(Take(w, k - 1)) /\ IsMembers(Drop(w, k))
IsValue(w) == /\ w # <<>>
              /\ \/ w \in {<<116, 114, 117, 101>>, <<102, 97, 108, 115, 101>>, <<110, 117, 108, 108>>}
                 \/ IsNumber(w) \/ IsString(w)
                 \/ LET m == Sub(w, 2, Len(w) - 2) IN Len(w) >= 2 /\ w[1] = 91 /\ w[Len(w)] = 93 /\ (AllWs(m) \/ IsElems(m))
                 \/ LET m == Sub(w, 2, Len(w) - 2) IN Len(w) >= 2 /\ w[1] = 123 /\ w[Len(w)] = 125 /\ (AllWs(m) \/ IsMembers(m))
GrammarLaw == n > 0 => LET w == Wrapped(text) IN (Parse(w, 1).ok <=> IsPadded(w)) /\ (IsPadded(w) => Parse(w, 0).ok)
\* the reported place of a failure: what comes before it is the beginning of some text, so it never lies after the end
PlaceLaw == n > 0 => LET w == Wrapped(text) p == Parse(w, 1) IN ~p.ok => p.next >= 1 /\ p.next <= Len(w) + 1 /\ (p.next <= Len(w) => w[p.next] \notin White)
\* every value a text denotes is the value of its canonical text
RoundLaw == n > 0 => LET w == Wrapped(text) p == Parse(w, 1) IN
              p.ok => LET v == Typed(p.v) IN HasDouble(v) \/ LET q == Parse(Compact(v), 1) IN q.ok /\ Typed(q.v) = v
\* what was parsed before stays
Stays == [][last'.a[1] # "reset" => IsPrefix(docs, docs')]_vars
EmitGraph == PrintT(ToJson([a |-> last'.a, e |-> last'.e]))
=============================================================================

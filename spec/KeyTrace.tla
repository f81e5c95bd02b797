------------------------------ MODULE KeyTrace ------------------------------
(* The threshold-key store: what generation, storage and loading may do.
   State: the stored coefficient lists of both committees and every coefficient ever drawn. *)
EXTENDS Field, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos, st

TInit(t) == [old |-> <<>>, new |-> <<>>, drawn |-> {}, cov |-> [generated |-> 0, stored |-> 0, loaded |-> 0]]
B(cond, r) == IF cond THEN {<<"C23", r>>} ELSE {}
Values(s) == {s[i] : i \in DOMAIN s}
\* the key material that belongs to the polynomial c
SharesOf(c, n) == [i \in 1..n |-> FEval(c, FInt(i))]
PublicOf(c) == [i \in DOMAIN c |-> G2(c[i])]
Indices(n) == [i \in 1..n |-> i - 1]
Consistent(e, c, nm) ==
  B(e.ix # Indices(e.n), nm \o "numbers the shares wrongly")
  \cup B(e.sk # SharesOf(c, e.n), nm \o "gives shares that do not lie on the polynomial")
  \cup B(e.pk # PublicOf(c), nm \o "gives a public key that does not commit to the polynomial")
\* generation: the polynomial is the one through the first t shares
Drawn(e) == FInterpPoly([i \in 1..e.t |-> FInt(i)], SubSeq(e.sk, 1, e.t))
Fresh(s, c, nm) == B(Cardinality(Values(c)) # Len(c) \/ Values(c) \cap s.drawn # {} \/ c[Len(c)] = F0 \/ F0 \in Values(c),
                     nm \o "does not draw fresh random coefficients")
R(s, bad) == [s |-> s, bad |-> bad]
Cov(s, k) == [s.cov EXCEPT ![k] = @ + 1]
TStep(t, s, e) ==
  CASE e.ev = "panic" -> R(s, {<<"C23", e.op \o " panics">>})
    [] e.ev = "crash" -> R(s, {<<"C23", "the process ended">>})
    [] e.ev = "hang" -> R(s, {<<"C23", "a call does not return">>})
    [] e.op = "gen" ->
         IF Len(e.sk) # e.n \/ e.n < e.t THEN R(s, {<<"C23", "generation gives a wrong number of shares">>})
         ELSE LET c == Drawn(e) IN
              R([s EXCEPT !.drawn = @ \cup Values(c), !.cov = Cov(s, "generated")], Consistent(e, c, "generation ") \cup Fresh(s, c, "generation "))
    [] e.op = "store" ->
         LET ok == Len(e.f1) = e.t /\ Len(e.f2) = e.t IN
         R([s EXCEPT !.old = e.f1, !.new = e.f2, !.drawn = @ \cup Values(e.f1) \cup Values(e.f2), !.cov = Cov(s, "stored")],
           B(~ok, "storage does not keep a coefficient list of the threshold's length for each committee")
           \cup (IF ok THEN Fresh(s, e.f1, "storage ") \cup Fresh([s EXCEPT !.drawn = @ \cup Values(e.f1)], e.f2, "storage (new committee) ") ELSE {}))
    [] e.op \in {"load", "loadnew"} ->
         LET c == SubSeq(IF e.op = "load" THEN s.old ELSE s.new, 1, e.t) IN
         R([s EXCEPT !.cov = Cov(s, "loaded")], Consistent(e, c, e.op \o " "))
TCov(t, s) == s.cov
INSTANCE TraceRun
=============================================================================

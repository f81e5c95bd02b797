---------------------------- MODULE InterpTrace ----------------------------
(* Interpolation, in the field and in the exponent (polyring, party_utils): the result is the value of the
   unique polynomial of degree < number of points through the points. *)
EXTENDS Field, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos, st

TInit(t) == [rnd |-> {}, cov |-> [calls |-> 0, atKnown |-> 0, atZero |-> 0, scattered |-> 0]]
B(cond, p, r) == IF cond THEN {<<p, r>>} ELSE {}
Upto(n) == [i \in 1..n |-> FInt(i)]
Values(s) == {s[i] : i \in DOMAIN s}
Judge(t, s, e) ==
  LET nm == t.backend \o ": " \o e.op \o " " IN
  CASE e.op = "interp" -> LET n == e.deg + 1 IN
         B(Len(e.r) # n \/ (\E i \in 1..n : FEval(e.r, e.x[i]) # e.y[i]), "C17", nm \o "is not the polynomial through the points")
         \cup B(e.xa # e.x \/ e.ya # e.y, "C17", nm \o "modifies its input")
    [] e.op = "rand" ->
         B(\E i \in DOMAIN e.r : Len(e.r[i]) # e.deg + 1 \/ ~(\A k \in DOMAIN e.r[i] : FIs(e.r[i][k])), "C04", nm \o "is not a polynomial of the degree asked for")
         \cup B(Cardinality(UNION {Values(e.r[i]) : i \in DOMAIN e.r}) # Len(e.r) * (e.deg + 1)
                \/ (UNION {Values(e.r[i]) : i \in DOMAIN e.r}) \cap s.rnd # {}, "C04", nm \o "repeats random coefficients")
    [] e.op = "lambda" ->
         B(e.r # [i \in DOMAIN e.x |-> FLam(e.x, i, e.at)], "C17", nm \o "are not the Lagrange coefficients") \cup B(e.xa # e.x, "C17", nm \o "modifies its input")
    [] e.op = "table" ->
         B(\E i \in DOMAIN e.r : e.r[i] # [k \in 1..(2*e.f+1) |-> FLam(Upto(2*e.f+1), k, FInt(i-1))], "C17", nm \o "of a party is not that of Lagrange coefficients")
    [] e.op = "pad" -> \* the same polynomial in a vector of the asked length
         B(e.r # [k \in 1..e.n |-> IF k <= Len(e.x) THEN e.x[k] ELSE "0"], "C17", nm \o "is not the same polynomial") \cup B(e.xa # e.x, "C17", nm \o "modifies its input")
    [] e.op = "samples" -> \* each value at its position, nothing elsewhere
         B(e.r # [k \in 1..e.n |-> IF \E i \in DOMAIN e.ix : e.ix[i] = k - 1 THEN e.x[CHOOSE i \in DOMAIN e.ix : e.ix[i] = k - 1] ELSE ""], "C17", nm \o "are not the values at their positions")
         \cup B(e.xa # e.x, "C17", nm \o "modifies its input")
    [] e.op = "scale" -> \* the smallest power of two that holds positions 0..size
         B(~(2^e.r >= e.n + 1 /\ 2^(e.r - 1) < e.n + 1), "C17", nm \o "is not that of the smallest domain")
    [] e.op = "interpg" ->
         B(e.r # G1(FInterp(Upto(e.deg+1), e.y, FInt(e.at))), "C17", nm \o "is not the interpolated element")
         \cup B(e.ya # [i \in DOMAIN e.y |-> G1(e.y[i])], "C17", nm \o "modifies its input")
    [] e.op = "interpgk" ->
         B(e.r # G1(FInterp(e.x, e.y, FInt(e.at))), "C17", nm \o "is not the interpolated element")
         \cup B(e.xa # e.x \/ e.ya # [i \in DOMAIN e.y |-> G1(e.y[i])], "C17", nm \o "modifies its input")
R(s, bad) == [s |-> s, bad |-> bad]
TStep(t, s, e) ==
  CASE e.ev = "call" ->
         R([s EXCEPT !.rnd = IF e.op = "rand" THEN @ \cup UNION {Values(e.r[i]) : i \in DOMAIN e.r} ELSE @,
                     !.cov.calls = @ + 1,
                     !.cov.atZero = @ + (IF "at" \in DOMAIN e /\ (IF e.op = "lambda" THEN e.at = "0" ELSE e.at = 0) THEN 1 ELSE 0),
                     !.cov.scattered = @ + (IF e.op \in {"interp", "lambda", "interpgk"} /\ e.x # Upto(Len(e.x)) THEN 1 ELSE 0)], Judge(t, s, e))
    [] e.ev = "panic" -> R(s, {<<IF e.op = "rand" THEN "C04" ELSE "C17", t.backend \o ": " \o e.op \o " panics">>})
    [] e.ev = "crash" -> R(s, {<<"C17", "the process ended">>, <<"C04", "the process ended">>})
    [] e.ev = "hang" -> R(s, {<<"C17", "a call does not return">>, <<"C04", "a call does not return">>})
TCov(t, s) == s.cov
INSTANCE TraceRun
=============================================================================

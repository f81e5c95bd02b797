----------------------------- MODULE PolyTrace -----------------------------
(* Judges recorded calls of internal/polycommit by the definitions of Poly.tla. *)
EXTENDS Poly, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos, st

TInit(t) == [cov |-> [calls |-> 0, fft |-> 0, das |-> 0, recovered |-> 0, refused |-> 0, zero |-> 0, valid |-> 0, invalid |-> 0, amortised |-> 0]]
B(cond, p, r) == IF cond THEN {<<p, r>>} ELSE {}
PropOf(op) ==
  CASE op \in {"settings", "fft", "fftip", "fftg1", "das", "rev", "revptr", "revg1", "bits", "revlim"} -> "C18"
    [] op \in {"zero", "zpoly", "rec", "erec", "shift"} -> "C19"
    [] op \in {"div", "setup", "commit", "commiteval", "prove", "check", "provecheck", "provemulti", "checkmulti"} -> "C16"
    [] OTHER -> "C20"

Width(e) == 2^e.w
G1s(v) == [i \in DOMAIN v |-> G1(v[i])]
Reject(op, e) == \* calls that must be refused (by an error; by a panic for the functions that return none)
  CASE op \in {"fft"} -> Len(e.x) > Width(e)
    [] op \in {"fftip", "fftg1"} -> Len(e.x) > Width(e) \/ ~Pow2(Len(e.x))
    [] op = "das" -> 2 * Len(e.x) > Width(e) \/ ~Pow2(Len(e.x)) \/ Len(e.x) < 2
    [] op \in {"rev", "revptr", "revg1"} -> Len(e.x) > 0 /\ ~Pow2(Len(e.x))
    [] OTHER -> FALSE
MayPanic(op) == op \in {"das", "rev", "revptr", "revg1"}

RevWord(h, l) == <<RevB(l, 16), RevB(h, 16)>>
BitIdx(h, l) == IF h > 0 THEN 16 + Log2(h) ELSE Log2(l)

Recovery(e, nm) ==
  LET n == Len(e.x)
      enough == Pow2(n) /\ n <= Width(e) /\ n >= 2 /\ 2 * Cardinality(Present(e.x)) >= n
      exact == enough /\ Agrees(e.x, e.orig)      \* unaltered samples of an extended vector (orig)
  IN B(exact /\ e.err, "C19", nm \o "fails although at least half of the data is there")
     \cup B(exact /\ ~e.err /\ e.r # e.orig, "C19", nm \o "returns wrong data")
     \cup B(~e.err /\ ~Agrees(e.x, e.r), "C19", nm \o "returns data that contradicts a sample")
     \cup B(e.xa # e.x, "C19", nm \o "modifies the samples")

\* positions of the amortised proofs: chunk length l, k proofs at the cosets x^l = Dom(k)[i]
Amort(e, nm, p, k, l, rev) ==
  LET d == Dom(k)
      ex == [i \in 1..k |-> G1(QuoN(p, l, d[i], e.tau))]
      want == IF rev THEN Rev(ex) ELSE ex
  IN B(e.r # want, "C20", nm \o "differs from the individually computed proofs")
     \cup B(e.r2 # want, "C20", nm \o "differs from the individually computed proofs when the settings are reused")
     \cup B(e.xa # e.x, "C20", nm \o "modifies its input")

Half(p) == Sub(p, 1, Len(p) \div 2)

Judge(t, e) ==
  LET nm == t.backend \o ": " \o e.op \o " "  op == e.op IN
  IF Reject(op, e) THEN B(~e.err, "C18", nm \o "accepts an impossible size")
  ELSE CASE op = "settings" ->
         B(e.width # Width(e) \/ e.root # FRoot(e.w) \/ e.exp # Append(Dom(Width(e)), F1)
           \/ e.rev # Append(DomInv(Width(e)), F1), "C18", nm \o "does not give the table of roots of unity")
    [] op = "fft" -> LET v == Pad(e.x, NextPow2(Len(e.x))) IN
         B(e.err, "C18", nm \o "rejects a valid input")
         \cup B(~e.err /\ ~(IF e.inv THEN IsIFFT(v, e.r) ELSE IsFFT(v, e.r)), "C18", nm \o (IF e.inv THEN "(inverse) " ELSE "") \o "gives a wrong transform")
         \cup B(e.xa # e.x, "C18", nm \o "modifies its input")
    [] op = "fftip" ->
         B(e.err, "C18", nm \o "rejects a valid input")
         \cup B(~e.err /\ ~(IF e.inv THEN IsIFFT(e.x, e.r) ELSE IsFFT(e.x, e.r)), "C18", nm \o (IF e.inv THEN "(inverse) " ELSE "") \o "gives a wrong transform")
    [] op = "fftg1" ->
         B(e.err, "C18", nm \o "rejects a valid input")
         \cup B(~e.err /\ e.r # G1s(IF e.inv THEN IFFT(e.x) ELSE FEvals(e.x, Dom(Len(e.x)))), "C18", nm \o (IF e.inv THEN "(inverse) " ELSE "") \o "gives a wrong transform")
         \cup B(e.xa # G1s(e.x), "C18", nm \o "modifies its input")
    [] op = "das" -> B(~IsExtension(e.x, e.r), "C18", nm \o "does not give the low-degree extension")
    [] op \in {"rev", "revptr"} -> B(e.r # Rev(e.x), "C18", nm \o "is not the bit-reversal permutation")
    [] op = "revg1" -> B(e.r # Rev(G1s(e.x)), "C18", nm \o "is not the bit-reversal permutation")
    [] op = "bits" -> B(\E i \in DOMAIN e.x : e.rb[i] # RevWord(e.x[i][1], e.x[i][2]), "C18", nm \o "reverses the bits of a word wrongly")
                      \cup B(\E i \in DOMAIN e.x : e.bi[i] # BitIdx(e.x[i][1], e.x[i][2]), "C18", nm \o "finds a wrong highest bit")
    [] op = "revlim" -> B(\E i \in DOMAIN e.r : e.r[i] # RevB(i-1, Log2(e.n)), "C18", nm \o "reverses the bits of an index wrongly")
    [] op = "shift" -> LET iv == FInv(FInt(5))  pw == FPowers(iv, Len(e.x)) IN
         B(e.r # [i \in DOMAIN e.x |-> FMul(e.x[i], pw[i])], "C19", nm \o "shifts wrongly")
         \cup B(e.back # e.x, "C19", nm \o "is not undone by UnshiftPoly")
    [] op = "zero" ->
         B(Len(e.eval) # e.n \/ Len(e.poly) # e.n \/ e.eval # FEvals(e.poly, Dom(e.n)), "C19", nm \o "gives evaluations that are not those of the polynomial")
         \cup B(Len(e.ix) < e.n /\ ~Monic(e.poly, Len(e.ix)), "C19", nm \o "is not monic of the right degree")
         \cup B(~VanishesExactly(e.poly, e.ix, e.n), "C19", nm \o "does not vanish exactly on the missing positions")
    [] op = "zpoly" -> B(~VanishesExactly(e.poly, e.ix, e.n), "C19", nm \o "does not vanish exactly on the missing positions")
    [] op \in {"rec", "erec"} -> Recovery(e, nm)
    [] op = "div" -> B(~IsQuotient(e.x, e.y, e.r), "C16", nm \o "gives a wrong quotient") \cup B(e.xa # e.x, "C16", nm \o "modifies its input")
    [] op = "setup" -> LET pw == FPowers(e.tau, e.n) IN
         B(e.s1 # G1s(pw) \/ e.s2 # [i \in 1..e.n |-> G2(pw[i])], "C16", nm \o "does not give the powers of the secret")
    [] op = "commit" -> B(e.r # G1(FEval(e.x, e.tau)), "C16", nm \o "is not p(tau)G")
         \cup B(e.r2 # G1(FEval(e.x, e.tau)), "C16", nm \o "(unoptimised) is not p(tau)G") \cup B(e.xa # e.x, "C16", nm \o "modifies its input")
    [] op = "commiteval" -> B(e.r # G1(FEval(IFFT(e.x), e.tau)), "C16", nm \o "(evaluation form) is not p(tau)G")
    [] op = "prove" -> B(e.at # e.tau /\ e.r # G1(Quo1(e.x, e.at, e.tau)), "C16", nm \o "is not the quotient at tau") \cup B(e.xa # e.x, "C16", nm \o "modifies its input")
    [] op = "check" -> B(e.r # Check1(e.c, e.p, e.at, e.y, e.tau), "C16", nm \o (IF e.r THEN "accepts a wrong value" ELSE "rejects a true value"))
    [] op = "provecheck" -> B(e.y # FEval(e.x, e.at), "C16", nm \o "evaluates wrongly") \cup B(~e.r, "C16", nm \o "rejects the proof of a true value")
    [] op = "provemulti" -> B(e.r # G1(QuoN(e.x, e.m, FExp(e.at, FInt(e.m)), e.tau)), "C16", nm \o "is not the quotient at tau") \cup B(e.xa # e.x, "C16", nm \o "modifies its input")
    [] op = "checkmulti" -> B(e.r # CheckN(e.c, e.p, e.at, e.ys, e.tau), "C16", nm \o (IF e.r THEN "accepts wrong values" ELSE "rejects true values"))
                            \cup B(e.xa # e.ys, "C16", nm \o "modifies its input")
    [] op = "fk1" -> Amort(e, nm, e.x, Len(e.x), 1, FALSE)
    [] op = "fk1da" -> Amort(e, nm, Half(e.x), Len(e.x), 1, FALSE)
    [] op = "fk1das" -> Amort(e, nm, e.x, 2 * Len(e.x), 1, TRUE)
    [] op = "fkm" -> Amort(e, nm, e.x, Len(e.x) \div e.l, e.l, FALSE)
    [] op = "fkmda" -> Amort(e, nm, Half(e.x), Len(e.x) \div e.l, e.l, FALSE)
    [] op = "fkmdas" -> Amort(e, nm, e.x, (2 * Len(e.x)) \div e.l, e.l, TRUE)

Cov(s, e) ==
  [s.cov EXCEPT !.calls = @ + 1, !.fft = @ + (IF e.op \in {"fft", "fftip", "fftg1"} THEN 1 ELSE 0), !.das = @ + (IF e.op = "das" THEN 1 ELSE 0),
    !.recovered = @ + (IF e.op \in {"rec", "erec"} /\ ~e.err THEN 1 ELSE 0), !.refused = @ + (IF e.op \in {"rec", "erec"} /\ e.err THEN 1 ELSE 0),
    !.zero = @ + (IF e.op \in {"zero", "zpoly"} THEN 1 ELSE 0),
    !.valid = @ + (IF e.op \in {"check", "checkmulti"} /\ e.r THEN 1 ELSE 0), !.invalid = @ + (IF e.op \in {"check", "checkmulti"} /\ ~e.r THEN 1 ELSE 0),
    !.amortised = @ + (IF PropOf(e.op) = "C20" THEN 1 ELSE 0)]

R(s, bad) == [s |-> s, bad |-> bad]
All == {"C16", "C18", "C19", "C20"}
TStep(t, s, e) ==
  CASE e.ev = "call" -> R([s EXCEPT !.cov = Cov(s, e)], Judge(t, e))
    [] e.ev = "panic" -> R(s, B(~(Reject(e.op, e) /\ MayPanic(e.op)), PropOf(e.op), t.backend \o ": " \o e.op \o " panics (" \o e.msg \o ")"))
    [] e.ev = "crash" -> R(s, {<<p, "the process crashed">> : p \in All})
    [] e.ev = "hang" -> R(s, {<<p, "a call does not return">> : p \in All})
TCov(t, s) == s.cov
INSTANCE TraceRun
=============================================================================

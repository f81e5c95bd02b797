----------------------------- MODULE RandTrace -----------------------------
(***************************************************************************)
(* Randomness of everything that hides the secret: polynomials drawn by    *)
(* NewRandPoly, dealings of Client.Share and contributions to handoffs, of *)
(* several processes together.  No coefficient occurs twice, none is       *)
(* small, and over all of a kind every hexadecimal digit takes many        *)
(* values (a value is a canonical scalar; its digits counted from the end) *)
(***************************************************************************)
EXTENDS Sharing, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos, st
B(cond, p, r) == IF cond THEN {<<p, r>>} ELSE {}
R(s, bad) == [s |-> s, bad |-> bad]
Kinds == {"poly", "deal", "contrib"}
TInit(t) == [at |-> 0, cov |-> [coefficients |-> 0, digits |-> 0]]

Small(a) == FLess(a, "100000000000000000000000000000000")
\* coefficients of a sharing given by the values sent to members 1..f+1
OfShares(e) ==
  LET m == Len(e.m[1])
      b == TLCEval([j \in 1..m |-> TLCEval(FInterpPoly(Upto(e.f + 1), [i \in 1..(e.f+1) |-> SVal(e.m[i][j])]))])
      fp == TLCEval(FInterpPoly(Upto(m), [j \in 1..m |-> b[j][1]]))
      one(j) == [k \in 1..e.f |-> b[j][k+1]]
      RECURSIVE cat(_)
      cat(j) == IF j > m THEN <<>> ELSE one(j) \o cat(j + 1)
  IN cat(1) \o SubSeq(fp, 2, Len(fp))
Coefs(e) == IF e.ev = "poly" THEN e.c ELSE OfShares(e)
RECURSIVE Cat(_, _, _)
Cat(ev, k, i) == IF i > Len(ev) THEN <<>> ELSE (IF ev[i].ev = k THEN Coefs(ev[i]) ELSE <<>>) \o Cat(ev, k, i + 1)
Digit(a, k) == IF Len(a) < k THEN "0" ELSE SubSeq(a, Len(a) - k + 1, Len(a) - k + 1)

Final(t) ==
  LET c == TLCEval([k \in Kinds |-> TLCEval(Cat(t.ev, k, 1))])
      all == c["poly"] \o c["deal"] \o c["contrib"]
      cnt(k) == Len(c[k])
      poor(k) == cnt(k) >= 150 /\ \E d \in 1..63 : Cardinality({Digit(c[k][i], d) : i \in 1..cnt(k)}) < 8
      top(k) == cnt(k) >= 150 /\ Cardinality({Digit(c[k][i], 64) : i \in 1..cnt(k)}) < 5
  IN [bad |-> B(\E i \in DOMAIN t.ev : t.ev[i].ev = "poly" /\ Len(t.ev[i].c) # t.ev[i].d + 1, "C04", "a random polynomial does not have the requested number of coefficients")
              \cup B(\E i \in DOMAIN all : Small(all[i]), "C04", "a random coefficient is small")
              \cup B(Cardinality(Range(all)) # Len(all), "C04", "a random coefficient occurs twice")
              \cup UNION {B(poor(k) \/ top(k), "C04", "random coefficients of kind " \o k \o " are not spread over the field") : k \in Kinds},
      n |-> Len(all)]
TStep(t, s, e) ==
  IF s.at + 1 = Len(t.ev) THEN LET z == TLCEval(Final(t)) IN R([at |-> s.at + 1, cov |-> [coefficients |-> z.n, digits |-> 64]], z.bad)
  ELSE R([s EXCEPT !.at = @ + 1], {})
TCov(t, s) == s.cov
INSTANCE TraceRun
=============================================================================

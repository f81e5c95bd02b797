------------------------------ MODULE Sharing ------------------------------
(***************************************************************************)
(* The sharing DyCAPS maintains, as values: a polynomial B(x, y) of degree *)
(* f in x and 2f in y.  It is given by its columns B(x,1) .. B(x,2f+1),    *)
(* each a sequence of f+1 coefficients.  The secret is B(0, 0); member i   *)
(* (1..n) holds the row B(i, y), and after a reduction the column B(x, i). *)
(* A commitment to a column is the group element with exponent B(tau, y),  *)
(* a witness that of (B(x, y) - B(i, y))/(x - i) at tau; tau is the secret *)
(* of the testing setup.                                                   *)
(***************************************************************************)
EXTENDS Field, Integers, Sequences, FiniteSets

Upto(n) == [i \in 1..n |-> FInt(i)]
Range(q) == {q[i] : i \in DOMAIN q}

\* column at y (a scalar), row at x, single value
Col(b, y) == [k \in 1..Len(b[1]) |-> FInterp(Upto(Len(b)), [j \in DOMAIN b |-> b[j][k]], y)]
Row(b, x) == FInterpPoly(Upto(Len(b)), [j \in DOMAIN b |-> FEval(b[j], x)])
Val(b, x, y) == FInterp(Upto(Len(b)), [j \in DOMAIN b |-> FEval(b[j], x)], y)
Secret(b) == Val(b, F0, F0)

\* exponents of commitment and witness of a polynomial
Com(c) == FEval(c, Tau)
Wit(c, x) == FDiv(FSub(FEval(c, Tau), FEval(c, x)), FSub(Tau, x))
\* the verification equation for commitment c, witness w, position x, value v
Check(c, w, x, v) == FSub(c, v) = FMul(w, FSub(Tau, x))
\* the only value that verifies
OnlyValue(c, w, x) == FSub(c, FMul(w, FSub(Tau, x)))

\* sums of sharings
AddB(a, b) == [j \in DOMAIN a |-> [k \in DOMAIN a[j] |-> FAdd(a[j][k], b[j][k])]]
RECURSIVE SumB(_, _)
SumB(s, b) == IF s = <<>> THEN b ELSE SumB(Tail(s), AddB(Head(s), b))
ZeroAt0(b) == Secret(b) = F0

\* a wire scalar: its value when canonical
SVal(h) == IF Len(h) = 64 THEN FFromLE(h) ELSE "bad"
=============================================================================

-------------------------------- MODULE Poly --------------------------------
(***************************************************************************)
(* What the polynomial library (internal/polycommit) must compute, by      *)
(* definition: transforms are evaluations on the domain, recovery is the   *)
(* unique low-degree extension, commitments and proofs are the group       *)
(* elements p(tau)G and ((p - p(x))/(X - x))(tau)G, amortised proofs are   *)
(* the proofs of the single positions.  Nothing here uses a fast           *)
(* algorithm.                                                              *)
(***************************************************************************)
EXTENDS Field, Integers, Sequences, FiniteSets

RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
Pow2(n) == n >= 1 /\ 2^Log2(n) = n
NextPow2(n) == IF n <= 1 THEN 1 ELSE IF Pow2(n) THEN n ELSE 2^(Log2(n)+1)
Dom(n) == FDomain(Log2(n))                    \* n a power of two
Zeros(n) == [i \in 1..n |-> F0]
Pad(v, n) == v \o Zeros(n - Len(v))
Sub(v, a, b) == SubSeq(v, a, b)

----------------------------------------------------------------------------
(* Transforms *)
IsFFT(v, r) == Len(r) = Len(v) /\ r = FEvals(v, Dom(Len(v)))
IsIFFT(v, r) == Len(r) = Len(v) /\ v = FEvals(r, Dom(Len(v)))
Inv(n) == FInv(FInt(n))
\* the inverse domain
DomInv(n) == FPowers(FInv(FRoot(Log2(n))), n)
IFFT(v) == LET n == Len(v)  e == FEvals(v, DomInv(n)) IN [i \in 1..n |-> FMul(e[i], Inv(n))]

\* v: the values at the even positions of the double domain; r: those at the odd ones
IsExtension(v, r) ==
  LET n == Len(v)  c == IFFT(v)  d == Dom(2 * n) IN
  Len(r) = n /\ r = FEvals(c, [i \in 1..n |-> d[2 * i]])

RECURSIVE RevB(_, _)
RevB(i, k) == IF k = 0 THEN 0 ELSE (i % 2) * 2^(k-1) + RevB(i \div 2, k-1)
Rev(v) == LET k == Log2(Len(v)) IN [i \in DOMAIN v |-> v[RevB(i-1, k) + 1]]

----------------------------------------------------------------------------
(* Recovery *)
Missing(s) == {i \in DOMAIN s : s[i] = ""}
Present(s) == DOMAIN s \ Missing(s)
Agrees(s, r) == Len(r) = Len(s) /\ \A i \in Present(s) : r[i] = s[i]
\* poly (coefficients) vanishes exactly on the positions ix (0-based) of the domain of n points
VanishesExactly(poly, ix, n) ==
  LET e == FEvals(poly, Dom(n)) IN \A i \in 0..(n-1) : (e[i+1] = F0) = (\E j \in DOMAIN ix : ix[j] = i)
Monic(poly, d) == Len(poly) > d /\ poly[d+1] = F1 /\ \A i \in (d+2)..Len(poly) : poly[i] = F0

----------------------------------------------------------------------------
(* Commitments and proofs, as exponents; tau is the secret of the setup *)
Quo1(p, x, tau) == \* value at tau of (p - p(x))/(X - x); for tau = x the derivative, not needed here
  FDiv(FSub(FEval(p, tau), FEval(p, x)), FSub(tau, x))
\* quotient of p by X^n - c at tau
QuoN(p, n, c, tau) == FDiv(FSub(FEval(p, tau), FEval(FRemXn(p, n, c), tau)), FSub(FExp(tau, FInt(n)), c))
Check1(c, w, x, y, tau) == FSub(c, y) = FMul(w, FSub(tau, x))
CheckN(c, w, x, ys, tau) ==
  LET n == Len(ys)  d == Dom(n)
      i == FInterp([k \in 1..n |-> FMul(x, d[k])], ys, tau)
  IN FSub(c, i) = FMul(w, FSub(FExp(tau, FInt(n)), FExp(x, FInt(n))))

\* product of polynomials, for divisions
Coef(v, i) == IF i \in DOMAIN v THEN v[i] ELSE F0
Prod(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE [k \in 1..(Len(a) + Len(b) - 1) |->
     LET lo == IF k - Len(b) + 1 > 1 THEN k - Len(b) + 1 ELSE 1  hi == IF k < Len(a) THEN k ELSE Len(a) IN
     FDot(Sub(a, lo, hi), [j \in 1..(hi - lo + 1) |-> b[k - (lo + j - 1) + 1]])]
\* b has a non-zero leading coefficient
IsQuotient(a, b, q) ==
  LET pr == Prod(q, b) IN
  /\ Len(q) = (IF Len(a) >= Len(b) THEN Len(a) - Len(b) + 1 ELSE 0)
  /\ \A i \in Len(b)..(IF Len(a) > Len(pr) THEN Len(a) ELSE Len(pr)) : Coef(a, i) = Coef(pr, i)
=============================================================================

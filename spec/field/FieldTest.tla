----------------------------- MODULE FieldTest -----------------------------
(* The overridden composite operators of Field agree with their TLA+ definitions, field laws. *)
EXTENDS Field
VARIABLE k
Rnd(i) == FExp(FInt(7), FInt(i * i + 3 * i + 11))
Vec(i, n) == [j \in 1..n |-> Rnd(i * 31 + j)]
Init == k \in 1..40
Next == UNCHANGED k
Good ==
  LET a == Rnd(k)  b == Rnd(k+100)  c == Rnd(k+200)  v == Vec(k, 5)  w == Vec(k+50, 5) IN
  /\ FEval(v, a) = FEvalDef(v, a)
  /\ FSum(v) = FSumDef(v) /\ FProd(v) = FProdDef(v) /\ FDot(v, w) = FDotDef(v, w)
  /\ \A i \in 1..5 : FLam(v, i, a) = FLamDef(v, i, a, 5)
  /\ FInterp(v, w, a) = FInterpDef(v, w, a)
  /\ \A i \in 1..5 : FInterp(v, w, v[i]) = w[i]
  /\ FMul(a, FInv(a)) = F1 /\ FInv(F0) = F0 /\ FAdd(a, FNeg(a)) = F0
  /\ FMul(a, FAdd(b, c)) = FAdd(FMul(a, b), FMul(a, c))
  /\ FIs(a) /\ ~FIs("0" \o a) /\ ~FIs(FOrder)
  /\ G1Valid(G1(a)) /\ G1Add(G1(a), G1(b)) = G1(FAdd(a, b)) /\ G1Mul(G1(a), b) = G1(FMul(a, b))
  /\ G1Add(G1(a), G1(FNeg(a))) = G1(F0)
  /\ G2Valid(G2(a)) /\ G2Add(G2(a), G2(b)) = G2(FAdd(a, b)) /\ G2Mul(G2(a), b) = G2(FMul(a, b))
  /\ G2Add(G2(a), G2(FNeg(a))) = G2(F0)
  /\ FExp(FRoot(5), FInt(32)) = F1 /\ FExp(FRoot(5), FInt(16)) = FNeg(F1) /\ FRoot(0) = F1
  /\ LET d == FExp(b, FInt(3)) IN FEval(FRemXn(v, 3, d), b) = FEval(v, b)
  /\ FEvals(v, w) = FEvalsDef(v, w) /\ FPowers(a, 6) = FPowersDef(a, 6) /\ FPowers(a, 0) = <<>>
  /\ Len(FDomain(3)) = 8 /\ FMul(FDomain(3)[8], FDomain(3)[2]) = F1
  /\ FDec(FDecStr(a)) = a /\ FFromLE(FLE(a)) = a /\ FDec("007") = "bad"
  /\ LET ip == FInterpPoly(v, w) IN Len(ip) = 5 /\ \A i \in 1..5 : FEval(ip, v[i]) = w[i]
=============================================================================

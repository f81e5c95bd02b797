-------------------------------- MODULE Bls --------------------------------
(***************************************************************************)
(* The arithmetic of internal/bls as a register machine.                   *)
(* State: f  scalars f[1..4]                                               *)
(*        v  vectors of scalars v[1..2]                                    *)
(*        g  elements of the first group g[1..3], each [e, c]: exponent    *)
(*           ("?" when unknown) and canonical encoding                     *)
(*        h  elements of the second group h[1..2]                          *)
(*        gv vector of exponents of elements of the first group            *)
(* Step(s, o) is the state after operation o and Result(s, o) its result;  *)
(* registers that are not the destination keep their values, whatever      *)
(* operands coincide.                                                      *)
(***************************************************************************)
EXTENDS Field

Zeros(n) == [i \in 1..n |-> F0]
Has0(q) == \E i \in DOMAIN q : q[i] = F0
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
Domain(n) == [i \in 1..n |-> FExp(FRoot(Log2(n)), FInt(i-1))]

El(e) == [e |-> e, c |-> G1(e)]
El2(e) == [e |-> e, c |-> G2(e)]
Op2(x, y, A(_,_), Enc(_), CA(_,_)) ==
  IF x.e # "?" /\ y.e # "?" THEN [e |-> A(x.e, y.e), c |-> Enc(A(x.e, y.e))] ELSE [e |-> "?", c |-> CA(x.c, y.c)]
MulE(x, k, Enc(_), CM(_,_)) == IF x.e # "?" THEN [e |-> FMul(x.e, k), c |-> Enc(FMul(x.e, k))] ELSE [e |-> "?", c |-> CM(x.c, k)]
SubC1(p, q) == G1Add(p, G1Mul(q, FNeg(F1)))
SubC2(p, q) == G2Add(p, G2Mul(q, FNeg(F1)))

ScalarOps == {"AddModFr", "SubModFr", "MulModFr", "DivModFr", "InvModFr", "CopyFr", "AsFr", "SetFr", "ExpModFr",
              "EvalPolyAt", "EvalPolyAtUnoptimized", "EvaluatePolyInEvaluationForm", "FrFrom32", "RandomFr"}

(* operations on undefined arguments are not judged and never generated *)
Defined(s, o) ==
  CASE o.op = "DivModFr" -> s.f[o.b+1] # F0
    [] o.op = "InvModFr" -> s.f[o.a+1] # F0
    [] o.op = "BatchInvModFr" -> ~Has0(s.v[o.a+1])
    [] OTHER -> TRUE

(* value written to the destination scalar *)
FValue(s, o) ==
  LET f == s.f A == f[o.a+1] B == f[o.b+1] IN
  CASE o.op = "AddModFr" -> FAdd(A, B)
    [] o.op = "SubModFr" -> FSub(A, B)
    [] o.op = "MulModFr" -> FMul(A, B)
    [] o.op = "DivModFr" -> FDiv(A, B)
    [] o.op = "InvModFr" -> FInv(A)
    [] o.op = "CopyFr" -> A
    [] o.op = "AsFr" -> o.x
    [] o.op = "SetFr" -> FDec(o.x)
    [] o.op = "ExpModFr" -> FExp(A, o.x)
    [] o.op \in {"EvalPolyAt", "EvalPolyAtUnoptimized"} -> FEval(s.v[o.a+1], B)
    [] o.op = "EvaluatePolyInEvaluationForm" -> FInterp(Domain(Len(s.v[o.a+1])), s.v[o.a+1], B)
    [] o.op = "FrFrom32" -> IF FFromLE(o.x) = "bad" THEN f[o.d+1] ELSE FFromLE(o.x)
    [] o.op = "RandomFr" -> o.r

Step(s, o) ==
  CASE o.op \in ScalarOps -> [s EXCEPT !.f[o.d+1] = FValue(s, o)]
    [] o.op = "BatchInvModFr" -> [s EXCEPT !.v[o.a+1] = [i \in DOMAIN @ |-> FInv(@[i])]]
    [] o.op = "AddG1" -> [s EXCEPT !.g[o.d+1] = Op2(s.g[o.a+1], s.g[o.b+1], FAdd, G1, G1Add)]
    [] o.op = "SubG1" -> [s EXCEPT !.g[o.d+1] = Op2(s.g[o.a+1], s.g[o.b+1], FSub, G1, SubC1)]
    [] o.op = "MulG1" -> [s EXCEPT !.g[o.d+1] = MulE(s.g[o.a+1], s.f[o.b+1], G1, G1Mul)]
    [] o.op = "NegG1" -> [s EXCEPT !.g[o.d+1] = MulE(s.g[o.d+1], FNeg(F1), G1, G1Mul)]
    [] o.op = "CopyG1" -> [s EXCEPT !.g[o.d+1] = s.g[o.a+1]]
    [] o.op = "ClearG1" -> [s EXCEPT !.g[o.d+1] = El(F0)]
    [] o.op = "AddG2" -> [s EXCEPT !.h[o.d+1] = Op2(s.h[o.a+1], s.h[o.b+1], FAdd, G2, G2Add)]
    [] o.op = "SubG2" -> [s EXCEPT !.h[o.d+1] = Op2(s.h[o.a+1], s.h[o.b+1], FSub, G2, SubC2)]
    [] o.op = "MulG2" -> [s EXCEPT !.h[o.d+1] = MulE(s.h[o.a+1], s.f[o.b+1], G2, G2Mul)]
    [] o.op = "NegG2" -> [s EXCEPT !.h[o.d+1] = MulE(s.h[o.d+1], FNeg(F1), G2, G2Mul)]
    [] o.op = "CopyG2" -> [s EXCEPT !.h[o.d+1] = s.h[o.a+1]]
    [] o.op = "ClearG2" -> [s EXCEPT !.h[o.d+1] = El2(F0)]
    [] o.op = "FromCompressedG1" \/ o.op = "UnmarshalTextG1" ->
         [s EXCEPT !.g[o.d+1] = IF ~o.valid THEN @ ELSE
            IF \E e \in {s.g[i].e : i \in DOMAIN s.g} : e # "?" /\ G1(e) = FLower(o.x)
            THEN CHOOSE r \in {s.g[i] : i \in DOMAIN s.g} : r.e # "?" /\ r.c = FLower(o.x) ELSE [e |-> "?", c |-> FLower(o.x)]]
    [] o.op = "FromCompressedG2" \/ o.op = "UnmarshalTextG2" ->
         [s EXCEPT !.h[o.d+1] = IF ~o.valid THEN @ ELSE
            IF \E e \in {s.h[i].e : i \in DOMAIN s.h} : e # "?" /\ G2(e) = FLower(o.x)
            THEN CHOOSE r \in {s.h[i] : i \in DOMAIN s.h} : r.e # "?" /\ r.c = FLower(o.x) ELSE [e |-> "?", c |-> FLower(o.x)]]
    [] OTHER -> s

ResultOps == {"EqualFr", "EqualZero", "EqualOne", "FrStr", "String", "FrTo32", "FrFrom32", "ValidFr", "ToFr", "LinCombFr",
              "IsPowerOfTwo", "EqualG1", "EqualG2", "LinCombG1", "ToCompressedG1", "ToCompressedG2", "MarshalTextG1", "MarshalTextG2",
              "PolyLinComb", "PairingsVerify"}
RECURSIVE IsPow2(_)
IsPow2(n) == n = 1 \/ (n > 1 /\ n % 2 = 0 /\ IsPow2(n \div 2))
PowersOfTwo == {FExp(FInt(2), FInt(k)) : k \in 0..63}
Result(s, o) ==
  LET f == s.f IN
  CASE o.op = "EqualFr" -> f[o.a+1] = f[o.b+1]
    [] o.op = "EqualZero" -> f[o.a+1] = F0
    [] o.op = "EqualOne" -> f[o.a+1] = F1
    [] o.op \in {"FrStr", "String"} -> FDecStr(f[o.a+1])
    [] o.op = "FrTo32" -> FLE(f[o.a+1])
    [] o.op \in {"FrFrom32", "ValidFr"} -> FFromLE(o.x) # "bad"
    [] o.op = "ToFr" -> FDec(o.x)
    [] o.op = "LinCombFr" -> FDot(s.v[o.a+1], s.v[o.b+1])
    [] o.op = "IsPowerOfTwo" -> o.x \in PowersOfTwo
    [] o.op = "EqualG1" -> s.g[o.a+1].c = s.g[o.b+1].c
    [] o.op = "EqualG2" -> s.h[o.a+1].c = s.h[o.b+1].c
    [] o.op = "LinCombG1" -> G1(FDot([i \in 1..o.d |-> s.gv[i]], [i \in 1..o.d |-> s.v[o.a+1][i]]))
    [] o.op \in {"ToCompressedG1", "MarshalTextG1"} -> s.g[o.a+1].c
    [] o.op \in {"ToCompressedG2", "MarshalTextG2"} -> s.h[o.a+1].c
    [] o.op = "PairingsVerify" -> FMul(s.g[o.xs[1]+1].e, s.h[o.xs[2]+1].e) = FMul(s.g[o.xs[3]+1].e, s.h[o.xs[4]+1].e)
    [] o.op = "PolyLinComb" ->
         IF o.err THEN o.r ELSE [i \in 1..o.d |-> FSum([j \in DOMAIN o.xs |-> FMul(f[((j-1) % 4)+1], s.v[(o.xs[j] % 2)+1][i])])]

(* the property an operation belongs to *)
PropOf(op) == CASE op \in {"FrStr", "String", "FrTo32", "FrFrom32", "ValidFr", "SetFr", "ToFr", "ToCompressedG1", "ToCompressedG2",
                           "MarshalTextG1", "MarshalTextG2", "FromCompressedG1", "FromCompressedG2", "UnmarshalTextG1",
                           "UnmarshalTextG2", "UnmarshalNil", "StrG1", "StrG2"} -> "C22"
                [] op \in {"EvalPolyAt", "EvalPolyAtUnoptimized", "EvaluatePolyInEvaluationForm"} -> "C17"
                [] OTHER -> "C21"
=============================================================================

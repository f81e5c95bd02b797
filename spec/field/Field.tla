------------------------------- MODULE Field -------------------------------
(***************************************************************************)
(* The scalar field and the group of BLS12-381 for trace validation.       *)
(*                                                                         *)
(* A scalar is its canonical lower-case hexadecimal string ("0", "1f"...). *)
(* TLC evaluates these operators with the Java class Field (Field.java,    *)
(* java.math.BigInteger; the group operations are an independent           *)
(* implementation of the curve).  The TLA+ bodies are the meaning; the     *)
(* operators that are defined by other operators below are evaluated by    *)
(* TLC from the TLA+ text unless marked "overridden for speed", and        *)
(* FieldTest.tla compares these with their definitions.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

FOrder == "73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001"

FIs(a)     == CHOOSE b \in BOOLEAN : TRUE   \* overridden: a is a canonical scalar
FInt(n)    == CHOOSE x : TRUE               \* overridden: the scalar n (n >= 0)
FAdd(a, b) == CHOOSE x : TRUE               \* overridden
FSub(a, b) == CHOOSE x : TRUE               \* overridden
FMul(a, b) == CHOOSE x : TRUE               \* overridden
FInv(a)    == CHOOSE x : TRUE               \* overridden: the inverse, "0" for "0"
FExp(a, n) == CHOOSE x : TRUE               \* overridden: a to the scalar-string n
FLess(a,b) == CHOOSE x \in BOOLEAN : TRUE   \* overridden: order of the canonical representatives
F0 == FInt(0)
F1 == FInt(1)
FNeg(a)    == FSub(F0, a)
FDiv(a, b) == FMul(a, FInv(b))

(* value of the polynomial with coefficients c (constant first) at x; overridden for speed *)
RECURSIVE FEvalDef(_, _)
FEvalDef(c, x) == IF c = <<>> THEN F0 ELSE FAdd(Head(c), FMul(x, FEvalDef(Tail(c), x)))
FEval(c, x) == FEvalDef(c, x)

RECURSIVE FSumDef(_)
FSumDef(s) == IF s = <<>> THEN F0 ELSE FAdd(Head(s), FSumDef(Tail(s)))
FSum(s) == FSumDef(s)                       \* overridden for speed

RECURSIVE FProdDef(_)
FProdDef(s) == IF s = <<>> THEN F1 ELSE FMul(Head(s), FProdDef(Tail(s)))
FProd(s) == FProdDef(s)                     \* overridden for speed

RECURSIVE FDotDef(_, _)
FDotDef(s, t) == IF s = <<>> THEN F0 ELSE FAdd(FMul(Head(s), Head(t)), FDotDef(Tail(s), Tail(t)))
FDot(s, t) == FDotDef(s, t)                 \* overridden for speed

(* i-th Lagrange coefficient for the positions xs (distinct) at x *)
RECURSIVE FLamDef(_, _, _, _)
FLamDef(xs, i, x, j) == IF j = 0 THEN F1
  ELSE FMul(FLamDef(xs, i, x, j-1),
            IF j = i THEN F1 ELSE FDiv(FSub(x, xs[j]), FSub(xs[i], xs[j])))
FLam(xs, i, x) == FLamDef(xs, i, x, Len(xs))  \* overridden for speed

(* value at x of the polynomial of degree < Len(xs) through (xs[i], ys[i]); overridden for speed *)
FInterpDef(xs, ys, x) == FDotDef([i \in DOMAIN xs |-> FLamDef(xs, i, x, Len(xs))], ys)
FInterp(xs, ys, x) == FInterpDef(xs, ys, x)

(* compressed encoding (hex) of the group element with exponent a, generator of G1 *)
G1(a) == CHOOSE s : TRUE                    \* overridden
(* compressed encoding of the sum of encoded elements, and of a multiple: for points of unknown exponent *)
G1Valid(p)   == CHOOSE b \in BOOLEAN : TRUE \* overridden: a valid encoding of an element of the group
G1Add(p, q)  == CHOOSE s : TRUE             \* overridden
G1Mul(p, a)  == CHOOSE s : TRUE             \* overridden

\* the exponent among es of an encoded element, "?" if there is none; overridden for speed
G1Log(h, es) == IF \E e \in es : G1(e) = h THEN CHOOSE e \in es : G1(e) = h ELSE "?"

G2(a) == CHOOSE s : TRUE                    \* overridden: the same for G2
G2Valid(p)   == CHOOSE b \in BOOLEAN : TRUE \* overridden
G2Add(p, q)  == CHOOSE s : TRUE             \* overridden
G2Mul(p, a)  == CHOOSE s : TRUE             \* overridden

(* affine coordinates of the element with exponent a, in decimal *)
G1X(a) == CHOOSE s : TRUE                   \* overridden
G1Y(a) == CHOOSE s : TRUE                   \* overridden

(* byte and text forms of scalars: decimal, 32 bytes little endian in hex; "bad" when not canonical *)
FDec(d)    == CHOOSE x : TRUE               \* overridden
FDecStr(a) == CHOOSE x : TRUE               \* overridden
FLE(a)     == CHOOSE x : TRUE               \* overridden
FFromLE(b) == CHOOSE x : TRUE               \* overridden

(* coefficients of the polynomial of degree < Len(xs) through (xs[i], ys[i]); see FieldTest for the definition *)
FInterpPoly(xs, ys) == CHOOSE c : TRUE      \* overridden

(* the fixed primitive root of unity of order 2^k: 7^((order-1)/2^k) *)
FRoot(k) == CHOOSE x : TRUE                 \* overridden
(* lower-case form of a string *)
FLower(t) == CHOOSE s : TRUE                \* overridden
(* remainder of the polynomial a modulo x^n - c, n coefficients *)
FRemXn(a, n, c) == CHOOSE r : TRUE          \* overridden

(* values at many points; the first n powers of w; both overridden for speed *)
FEvalsDef(c, xs) == [i \in DOMAIN xs |-> FEvalDef(c, xs[i])]
FEvals(c, xs) == FEvalsDef(c, xs)
RECURSIVE FPowersDef(_, _)
FPowersDef(w, n) == IF n = 0 THEN <<>> ELSE Append(FPowersDef(w, n-1), IF n = 1 THEN F1 ELSE FMul(w, FPowersDef(w, n-1)[n-1]))
FPowers(w, n) == FPowersDef(w, n)
(* the evaluation domain of 2^k points *)
FDomain(k) == FPowers(FRoot(k), 2^k)

(* the secret of the fixed testing setup, known to the specification *)
FTau == "0"                                 \* overridden
Tau == FTau
=============================================================================

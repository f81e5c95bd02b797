------------------------------ MODULE Secrecy ------------------------------
(***************************************************************************)
(* What a coalition sees, as linear functionals of the polynomials it does *)
(* not know, over a small prime field.  The secret stays hidden exactly    *)
(* when B(0,0) is not a combination of them: then every secret is          *)
(* consistent with the view, equally often.                                *)
(*                                                                         *)
(* A chain of H handoffs of a sharing B_0, with one honest contribution    *)
(* Q_h in each (those of coalition members are known to it and drop out),  *)
(* so B_h = B_0 + Q_1 + .. + Q_h.  Unknowns: the coefficients x^i y^k,     *)
(* i <= f, k <= 2f, of B_0 and of every Q_h, Q_h(0,0) = 0.  Member x of    *)
(* the first committee holds the row of B_0; member x of committee h sees  *)
(* the column of B_(h-1) (ShareReduce), row and column of Q_h (Reshare,    *)
(* Recover) and the row of B_h (ShareDist).                                *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS N, F, P, H
VARIABLES w, said

D == (F + 1) * (2 * F + 1)
RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 0 THEN 1 ELSE (a * Pow(a, k - 1)) % P
RECURSIVE InvBy(_, _)
InvBy(a, k) == IF k = 0 THEN 1 ELSE IF k % 2 = 1 THEN (a * InvBy(a, k - 1)) % P ELSE LET h == InvBy(a, k \div 2) IN (h * h) % P
Inv(a) == InvBy(a, P - 2)
\* position (1-based) of the coefficient of x^i y^k in polynomial number z
Ix(z, i, k) == z * D + i * (2 * F + 1) + k + 1
Len0 == (H + 1) * D
\* functional given by its weight for each polynomial, x degree and y degree
Fn(g(_, _, _)) == [n \in 1..Len0 |-> LET q == n - 1  z == q \div D  r == q % D IN g(z, r \div (2*F+1), r % (2*F+1))]
RowF(zs, x) == {Fn(LAMBDA z, i, k : IF z \in zs /\ k = kk THEN Pow(x, i) ELSE 0) : kk \in 0..(2*F)}
ColF(zs, y) == {Fn(LAMBDA z, i, k : IF z \in zs /\ i = ii THEN Pow(y, k) ELSE 0) : ii \in 0..F}
At0(z0) == Fn(LAMBDA z, i, k : IF z = z0 /\ i = 0 /\ k = 0 THEN 1 ELSE 0)
\* ws[h+1]: the coalition's positions in committee h
View(ws) == {At0(h) : h \in 1..H}
  \cup UNION {RowF({0}, x) : x \in ws[1]}
  \cup UNION {UNION {ColF(0..(h-1), x) \cup RowF({h}, x) \cup ColF({h}, x) \cup RowF(0..h, x) : x \in ws[h+1]} : h \in 1..H}

\* reduce v by the pivots in b (a sequence of <<position, row>>, row normalised to 1 there)
RECURSIVE Reduce(_, _, _)
Reduce(v, b, i) == IF i > Len(b) THEN v ELSE
  LET c == v[b[i][1]] IN Reduce(IF c = 0 THEN v ELSE TLCEval([n \in 1..Len0 |-> (v[n] - c * b[i][2][n]) % P]), b, i + 1)
RECURSIVE Basis(_, _)
Basis(S, b) == IF S = {} THEN b ELSE
  LET v0 == CHOOSE x \in S : TRUE
      v == TLCEval(Reduce(v0, b, 1))
      nz == {n \in 1..Len0 : v[n] # 0}
  IN IF nz = {} THEN Basis(S \ {v0}, b)
     ELSE LET p == CHOOSE n \in nz : \A m \in nz : n <= m  c == Inv(v[p])
          IN Basis(S \ {v0}, Append(b, <<p, TLCEval([n \in 1..Len0 |-> (v[n] * c) % P])>>))
Determined(ws) == LET b == Basis(View(ws), <<>>) IN \A n \in 1..Len0 : Reduce(At0(0), b, 1)[n] = 0
\* the coalition occupies more than f positions of two successive committees together
Split(ws) == \E h \in 1..H : Cardinality(ws[h] \cup ws[h+1]) > F

Init == /\ w \in [1..(H+1) -> {s \in SUBSET (1..N) : Cardinality(s) <= F}] /\ said = FALSE
Next == /\ ~said /\ said' = TRUE /\ UNCHANGED w
        /\ \E d \in {Determined(w)} :
             /\ PrintT("COAL|" \o ToString(Split(w)) \o "|" \o ToString(d) \o "|" \o ToString(w))
             /\ Assert(d => Split(w), "a coalition that occupies at most f positions of successive committees learns the secret")
=============================================================================

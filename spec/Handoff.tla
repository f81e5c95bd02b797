------------------------------ MODULE Handoff ------------------------------
(***************************************************************************)
(* Dealing and handoffs as one history of the shared polynomial B.         *)
(*                                                                         *)
(* A handoff from one committee to another adds the contributions that the *)
(* agreement selected to B: B' = B + sum of Q_j, j in J.  A contribution   *)
(* of an honest member is the polynomial its Reshare messages carry; that  *)
(* of a faulty member is what the honest members who vouched for it relay. *)
(* Everything honest members send and keep is a function of B, the Q_j     *)
(* and J, and is compared with it once the handoff is over.                *)
(***************************************************************************)
EXTENDS Sharing

M(t) == 2 * t.f + 1
Honest(t, com) == (0..(t.n-1)) \ Range(t.faulty[com+1])
TInit(t) == [b |-> t.coefs, secret |-> IF t.coefs = <<>> THEN "0" ELSE Secret(t.coefs), lo |-> 1, at |-> 0, h |-> 0, a |-> 0, c |-> 0, dead |-> FALSE, rnd |-> {},
             cov |-> [dealings |-> 0, handoffs |-> 0, refreshed |-> 0, honestq |-> 0, faultyq |-> 0, rejected |-> 0, partly |-> 0, agreedfaulty |-> 0]]
B(cond, p, r) == IF cond THEN {<<p, r>>} ELSE {}
R(s, bad) == [s |-> s, bad |-> bad]
\* what a member holds is recorded, too (a process of the program only shows what it sends)
HasSt(e) == "st" \in DOMAIN e
\* a process of the program: what it sends itself and what it holds is not recorded, and the record may end early
Blind(t) == "blind" \in DOMAIN t /\ t.blind

\* ---------------------------------------------------------------- random coefficients
Small(a) == FLess(a, "100000000000000000000000000000000")
\* those of a sharing: of the columns but the constant ones, and of the polynomial of the constant ones but its constant
Rnd(b, f) == LET m == Len(b)  fp == FInterpPoly(Upto(m), [j \in 1..m |-> b[j][1]]) IN
  TLCEval([x \in (1..m) \X (2..(f+1)) |-> b[x[1]][x[2]]] @@ [x \in {0} \X (2..m) |-> fp[x[2]]])
RECURSIVE NSum(_)
NSum(q) == IF q = <<>> THEN 0 ELSE Head(q) + NSum(Tail(q))
Fresh(rs, known) ==
  LET v == [i \in DOMAIN rs |-> Range(rs[i])]  all == UNION Range(v) IN
  /\ \A x \in all : ~Small(x)
  /\ all \cap known = {}
  /\ NSum([i \in DOMAIN rs |-> Cardinality(DOMAIN rs[i])]) = Cardinality(all)

\* ---------------------------------------------------------------- dealing
Dealt(t, s) ==
  LET E == TLCEval(SubSeq(t.ev, s.lo, s.at - 1))
      D == {i \in DOMAIN E : E[i].ev = "deal"}
      ok == {E[i].to : i \in D} = 0..(t.n-1) /\ \A i \in D : Len(E[i].b) = M(t) + 1 /\ \A j \in 2..(M(t)+1) : SVal(E[i].b[j]) # "bad"
      m(q) == E[CHOOSE i \in D : E[i].to = q]
      b == TLCEval([j \in 1..M(t) |-> TLCEval(FInterpPoly(Upto(t.f + 1), [i \in 1..(t.f+1) |-> SVal(m(i-1).b[j+1])]))])
      dn == {i \in DOMAIN E : E[i].ev = "done"}
  IN IF ~ok THEN R([s EXCEPT !.dead = TRUE], {<<"C01", "no complete dealing">>})
     ELSE R([s EXCEPT !.b = b, !.rnd = Range(Rnd(b, t.f)), !.cov.dealings = @ + 1],
            B(Secret(b) # s.secret, "C01", "the dealing does not share the dealer's secret")
            \cup B(Honest(t, 0) \ {E[i].p : i \in dn} # {}, "C01", "a member does not obtain the dealing")
            \cup B(\E i \in dn : HasSt(E[i]) /\ E[i].st.full # Row(b, FInt(E[i].p + 1)), "C02", "a member holds another share than the dealt one")
            \cup B(~Fresh(<<Rnd(b, t.f)>>, {s.secret}), "C04", "the dealing is not a fresh random polynomial of full degree"))

\* ---------------------------------------------------------------- handoff
Kinds == {"Prepare", "ShareReduce", "Commit", "Reshare", "Recover", "NewCommit", "ShareDist", "Success", "Halt"}

RECURSIVE PSum(_, _)
PSum(ps, i) == IF i = 0 THEN G1("0") ELSE G1Add(PSum(ps, i-1), G1Mul(ps[i], FLam(Upto(Len(ps)), i, F0)))
\* the public part of a contribution verifies
ValidCommit(t, c) ==
  /\ c.ok /\ Len(c.pi) >= M(t)
  /\ \A j \in 1..M(t) : G1Valid(c.pi[j].cb) /\ G1Valid(c.pi[j].cz) /\ G1Valid(c.pi[j].wz) /\ G1Valid(c.pi[j].gf)
  /\ PSum([j \in 1..M(t) |-> c.pi[j].gf], M(t)) = G1("0")
  /\ \A j \in 1..M(t) : c.pi[j].cb = G1Add(c.pi[j].cz, c.pi[j].gf) /\ c.pi[j].cz = G1Mul(c.pi[j].wz, Tau)
PointOK(c, w, x, v) == v # "bad" /\ G1Valid(w) /\ G1Add(c, G1(FNeg(v))) = G1Mul(w, FSub(Tau, x))
RECURSIVE PInterp(_, _, _)
PInterp(ps, y, i) == IF i = 0 THEN G1("0") ELSE G1Add(PInterp(ps, y, i-1), G1Mul(ps[i], FLam(Upto(Len(ps)), i, y)))

RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o SetToSeq(S \ {x})

Judge(t, s) ==
  LET n == t.n  f == t.f  m == M(t)  N0 == 0..(n-1)
      E == TLCEval(SubSeq(t.ev, s.lo, s.at - 1))
      blind == Blind(t)
      Tos(p) == IF blind THEN N0 \ {p} ELSE N0
      HN == Honest(t, s.c)  HO == Honest(t, s.a)  anyfaulty == HN # N0 \/ HO # N0
      S == TLCEval([k \in Kinds |-> {i \in DOMAIN E : E[i].ev = "send" /\ E[i].t = k /\ E[i].h = s.h /\ E[i].good}])
      done(w) == {E[i].p : i \in {i \in DOMAIN E : E[i].ev = "done" /\ E[i].what = w}}
      x(p) == FInt(p + 1)
      col == TLCEval([q \in N0 |-> TLCEval(Col(s.b, x(q)))])
      \* what the honest members contribute
      RS == {i \in DOMAIN E : E[i].ev = "send" /\ E[i].t = "Reshare" /\ E[i].h = s.h}
      rsOK == \A p \in HN : \A k \in Tos(p) : \E i \in S["Reshare"] : E[i].p = p /\ E[i].to = k /\ E[i].ok /\ Len(E[i].q) >= m /\ Len(E[i].w) >= m /\ \A j \in 1..m : SVal(E[i].q[j]) # "bad"
      rs(p, k) == E[CHOOSE i \in RS : E[i].p = p /\ E[i].to = k]
      By(p, ks) == TLCEval([j \in 1..m |-> TLCEval(FInterpPoly([k \in DOMAIN ks |-> x(ks[k])], [k \in DOMAIN ks |-> SVal(rs(p, ks[k]).q[j])]))])
      Q == TLCEval([p \in HN |-> By(p, SubSeq(SetToSeq(Tos(p)), 1, f + 1))])
      \* who vouches for whom
      RC == S["Recover"]
      vou == TLCEval([p \in N0 |-> {E[i].p : i \in {i \in RC : E[i].idx = p + 1}}])
      rec == TLCEval([y \in {<<E[i].p, E[i].idx - 1, E[i].to>> : i \in RC} |-> E[CHOOSE i \in RC : E[i].p = y[1] /\ E[i].idx = y[2] + 1 /\ E[i].to = y[3]]])
      recfull(p, z) == \A l \in Tos(p) : <<p, z, l>> \in DOMAIN rec
      sent(z) == {k \in N0 : \E i \in RS : E[i].p = z /\ E[i].to = k /\ E[i].ok /\ Len(E[i].q) >= m /\ \A j \in 1..m : SVal(E[i].q[j]) # "bad"}
      FV == {z \in N0 \ HN : Cardinality(vou[z]) >= f + 1 /\ (IF blind THEN Cardinality(sent(z)) >= f + 1 ELSE \A p \in vou[z] : recfull(p, z))}
      first(z) == SubSeq(SetToSeq(vou[z]), 1, f + 1)
      QF == TLCEval([z \in FV |-> IF blind THEN By(z, SubSeq(SetToSeq(sent(z)), 1, f + 1)) ELSE TLCEval([l \in 1..m |-> TLCEval(FInterpPoly([i \in 1..(f+1) |-> x(first(z)[i])], [i \in 1..(f+1) |-> SVal(rec[<<first(z)[i], z, l-1>>].v)]))])])
      QQ == TLCEval(Q @@ QF)
      qcol == TLCEval([z \in DOMAIN QQ |-> TLCEval([l \in N0 |-> IF l < m THEN QQ[z][l+1] ELSE TLCEval(Col(QQ[z], x(l)))])])
      coms(z) == {i \in DOMAIN E : E[i].ev = "recv" /\ E[i].t = "Commit" /\ E[i].h = s.h /\ E[i].idx = z + 1}
      \* agreement
      HL == S["Halt"]
      js == {Range(E[i].js) : i \in HL}
      J1 == IF js = {} THEN {} ELSE CHOOSE y \in js : TRUE
      J == {j - 1 : j \in J1}
      Jok == Cardinality(js) = 1 /\ J1 \subseteq 1..n /\ J1 # {} /\ (\A i \in HL : Len(E[i].js) = Cardinality(J1)) /\ J \subseteq DOMAIN QQ
      bb == TLCEval(SumB([i \in 1..Cardinality(J) |-> QQ[SetToSeq(J)[i]]], s.b))
      ncol == TLCEval([q \in N0 |-> TLCEval(Col(bb, x(q)))])
      fin == {i \in DOMAIN E : E[i].ev = "final"}
      rnds == [i \in 1..Cardinality(HN) |-> Rnd(Q[SetToSeq(HN)[i]], f)]

      old == UNION {
        B(\E i \in S["Prepare"] : Len(E[i].cb) # m + 1 \/ \E j \in 1..m : E[i].cb[j+1] # G1(Com(s.b[j])), "C02", "Prepare does not carry the commitments of the sharing"),
        B(\E i \in S["ShareReduce"] : E[i].c # G1(Com(col[E[i].to])) \/ SVal(E[i].v) # FEval(col[E[i].to], x(E[i].p)) \/ E[i].w # G1(Wit(col[E[i].to], x(E[i].p))), "C02", "ShareReduce does not carry the recipient's value of the sharing"),
        B(\E i \in S["ShareReduce"], q \in N0 : q # E[i].to /\ SVal(E[i].v) # FEval(col[E[i].to], x(E[i].p)) /\ SVal(E[i].v) = FEval(col[q], x(E[i].p)), "C04", "ShareReduce discloses a value of another member"),
        B(\E i \in DOMAIN E : E[i].ev = "done" /\ E[i].what = "reduce" /\ HasSt(E[i]) /\ (E[i].st.red # col[E[i].p] \/ \E j \in 1..m : E[i].st.cb[j] # G1(Com(s.b[j]))), "C06", "a new member takes over a wrong share or wrong commitments"),
        B(HN \ done("reduce") # {}, "C06", "a new member does not obtain its reduced share")}

      contrib == UNION {
        B(\E p \in HN : \E k \in Tos(p), j \in 1..m : SVal(rs(p, k).q[j]) # FEval(Q[p][j], x(k)) \/ rs(p, k).w[j] # G1(Wit(Q[p][j], x(k))), "C02", "Reshare values and witnesses are not on one polynomial of degree f"),
        B(\E p \in HN : \E k \in Tos(p), k2 \in N0, j \in 1..m : k # k2 /\ SVal(rs(p, k).q[j]) # FEval(Q[p][j], x(k)) /\ SVal(rs(p, k).q[j]) = FEval(Q[p][j], x(k2)), "C04", "Reshare discloses a value of another member"),
        B(\E p \in HN : Secret(Q[p]) # F0, "C03", "an honest contribution does not share zero"),
        B(\E i \in S["Commit"] : E[i].idx # E[i].p + 1, "C02", "a contribution under another member's index"),
        B(\E p \in HN : ~\E i \in S["Commit"] : E[i].p = p, "C01", "an honest member does not contribute"),
        B(\E i \in S["Commit"] : Len(E[i].pi) # m \/ \E j \in 1..m :
            LET c == E[i].pi[j]  q == Q[E[i].p][j]  z == [q EXCEPT ![1] = F0] IN
            c.cb # G1(Com(q)) \/ c.cz # G1(Com(z)) \/ c.wz # G1(Wit(z, F0)) \/ c.gf # G1(q[1]), "C02", "a public element of an honest contribution is wrong"),
        B(~Fresh(rnds, s.rnd), "C04", "a contribution is not a fresh random sharing of full degree")}

      vouch == UNION {
        B(~blind /\ \E z \in HN : HN \ vou[z] # {}, "C07", "an honest contribution is not vouched for"),
        B(~blind /\ \E p \in HN, z \in HN : p \in vou[z] /\ ~recfull(p, z), "C07", "a vouching member does not relay to everyone"),
        B(\E i \in RC : E[i].idx \in 1..n /\ E[i].idx - 1 \in DOMAIN QQ /\
            LET q == qcol[E[i].idx - 1][E[i].to] IN SVal(E[i].v) # FEval(q, x(E[i].p)) \/ E[i].w # G1(Wit(q, x(E[i].p))), "C02", "a relayed value or witness is not that of the contribution"),
        B(\E i \in RC : E[i].idx \in 1..n /\ E[i].idx - 1 \in DOMAIN QQ /\ \E l \in N0 : l # E[i].to /\
            SVal(E[i].v) # FEval(qcol[E[i].idx - 1][E[i].to], x(E[i].p)) /\ SVal(E[i].v) = FEval(qcol[E[i].idx - 1][l], x(E[i].p)), "C04", "Recover discloses a value of another member"),
        B(\E z \in FV : Secret(QQ[z]) # F0, "C07", "honest members vouch for a contribution that does not share zero"),
        B(\E z \in FV : ~\E i \in coms(z) : ValidCommit(t, E[i]) /\ \A j \in 1..m : E[i].pi[j].cb = G1(Com(QQ[z][j])), "C07", "honest members vouch for a contribution that does not verify"),
        B(\E z \in (N0 \ HN) \ FV : vou[z] # {} /\ ~\E i \in coms(z) : ValidCommit(t, E[i]) /\
             \A p \in vou[z], l \in 0..(m-1) : <<p, z, l>> \in DOMAIN rec =>
                PointOK(E[i].pi[l+1].cb, rec[<<p, z, l>>].w, x(p), SVal(rec[<<p, z, l>>].v)), "C07", "an honest member vouches for values that do not verify")}

      agree == UNION {
        B(HL = {} /\ done("handoff") # {}, "C03", "members finish without an agreed set of contributions"),
        B(Cardinality(js) > 1, "C03", "members agree on different sets of contributions"),
        B(Cardinality(js) = 1 /\ Cardinality(J1) < f + 1, "C03", "fewer than f+1 contributions are agreed on"),
        B(HL # {} /\ \E i \in HL : Len(E[i].js) # Cardinality(Range(E[i].js)), "C03", "a contribution is agreed on twice"),
        B(Cardinality(js) = 1 /\ ~(J1 \subseteq 1..n /\ \A j \in J : Cardinality(vou[j]) >= f + 1), "C03", "a contribution without enough vouching members is agreed on")}

      result == UNION {
        B(\E i \in fin : E[i].st.red = col[E[i].p], "C03", "a member does not refresh its share"),
        B(\E i \in fin : E[i].st.red # ncol[E[i].p], "C03", "a member's refreshed share is not the old one plus the agreed contributions"),
        B(\E i \in fin : E[i].st.red # ncol[E[i].p], "C02", "reduced shares are not on the common polynomial"),
        B(\E i \in fin : E[i].st.full # Row(bb, x(E[i].p)), "C02", "full shares are not on the common polynomial"),
        B(anyfaulty /\ \E i \in fin : E[i].st.full # Row(bb, x(E[i].p)) \/ E[i].st.red # ncol[E[i].p], "C07", "a share was built from something that does not verify"),
        B(\E i \in fin : \E j \in 1..m : E[i].st.cb[j] # G1(Com(bb[j])), "C02", "the commitments kept are not those of the sharing"),
        B(\E i \in fin : Len(E[i].st.idx) # m \/ Cardinality(Range(E[i].st.idx)) # m \/ ~(Range(E[i].st.idx) \subseteq {x(q) : q \in N0})
              \/ \E k \in DOMAIN E[i].st.idx : k > Len(E[i].st.wit) \/ E[i].st.wit[k] # G1(Wit(Col(bb, E[i].st.idx[k]), x(E[i].p))), "C02", "the witnesses kept are not those of the shares"),
        B(\E i \in S["NewCommit"] : E[i].idx # E[i].p + 1 \/ E[i].cb # G1(Com(ncol[E[i].p])), "C02", "NewCommit is not the commitment of the new share"),
        B(\E i \in S["ShareDist"] : SVal(E[i].b) # FEval(ncol[E[i].p], x(E[i].to)) \/ E[i].w # G1(Wit(ncol[E[i].p], x(E[i].to))), "C02", "ShareDist does not carry the recipient's value of the new sharing"),
        B(\E i \in S["ShareDist"] : SVal(E[i].b) # FEval(ncol[E[i].p], x(E[i].to)) /\ \E q \in N0 : q # E[i].to /\ SVal(E[i].b) = FEval(ncol[E[i].p], x(q)), "C04", "ShareDist discloses a value of another member"),
        B(\E i \in DOMAIN E : E[i].ev = "done" /\ E[i].what = "handoff" /\ HasSt(E[i]) /\ \E k \in fin : E[k].p = E[i].p /\ (E[k].st.full # E[i].st.full \/ E[k].st.red # E[i].st.red), "C03", "a share changes after the handoff")}

      \* the secret, as any f+1 full or 2f+1 reduced shares give it, without reference to the rest
      hs == SetToSeq(HN)
      fst(i) == (CHOOSE k \in fin : E[k].p = hs[i])
      \* without a look into the members: from what they send each other at the end
      sd(p, q) == {i \in S["ShareDist"] : E[i].p = p /\ E[i].to = q /\ SVal(E[i].b) # "bad"}
      sdall == \A p \in HN, q \in HN : p # q => sd(p, q) # {}
      sv0(p, q) == SVal(E[CHOOSE i \in sd(p, q) : TRUE].b)
      oth(p) == SubSeq(SetToSeq(HN \ {p}), 1, f + 1)
      sv(p, q) == IF p # q THEN sv0(p, q) ELSE FInterp([k \in 1..(f+1) |-> x(oth(p)[k])], [k \in 1..(f+1) |-> sv0(p, oth(p)[k])], x(p))
      fullpts == [i \in DOMAIN hs |-> IF fin # {} THEN E[fst(i)].st.full[1] ELSE FInterp([k \in 1..m |-> x(hs[k])], [k \in 1..m |-> sv(hs[k], hs[i])], F0)]
      redpts == [i \in DOMAIN hs |-> IF fin # {} THEN E[fst(i)].st.red[1] ELSE FInterp([k \in 1..(f+1) |-> x(hs[k])], [k \in 1..(f+1) |-> sv(hs[i], hs[k])], F0)]
      xs == [i \in DOMAIN hs |-> x(hs[i])]
      Sub(q, k, d) == [i \in 1..k |-> q[((i + d - 2) % Len(q)) + 1]]
      secret == IF fin = {} /\ ~sdall THEN B(TRUE, "C01", "a member does not send everyone its value of the new sharing") ELSE UNION {
        B(\E d \in DOMAIN hs : FInterp(Sub(xs, f+1, d), Sub(fullpts, f+1, d), F0) # s.secret, "C01", "f+1 full shares do not reconstruct the secret"),
        B(Len(hs) >= m /\ \E d \in DOMAIN hs : FInterp(Sub(xs, m, d), Sub(redpts, m, d), F0) # s.secret, "C01", "2f+1 reduced shares do not reconstruct the secret")}

      all == HN \subseteq done("handoff")
      \* the rows of the old sharing at positions 1..f, from old members, and at position f+1, from a new one:
      \* what it keeps of the new sharing minus what it was sent of the contributions
      newrow0 == LET fq == {i \in fin : E[i].p = f} IN
        FSub(E[CHOOSE i \in fq : TRUE].st.full[1],
             FSum([k \in 1..Cardinality(J) |-> FInterp(Upto(m), [j \in 1..m |-> SVal(rs(SetToSeq(J)[k], f).q[j])], F0)]))
      coalition == B(fin # {} /\ J \subseteq HN /\ f \in HN /\ all /\
          FInterp(Upto(f+1), [i \in 1..(f+1) |-> IF i <= f THEN Row(s.b, FInt(i))[1] ELSE newrow0], F0) = s.secret,
          "C04", "f members of the old and one of the new committee at another position together compute the secret")
      stuck == B(HN \ done("handoff") # {}, "C01", "an honest member does not finish the handoff")
               \cup B(anyfaulty /\ HN \ done("handoff") # {}, "C24", "faulty members block an honest member")
  IN IF ~rsOK THEN R([s EXCEPT !.dead = TRUE], stuck \cup old \cup {<<"C01", "an honest member does not send its contribution to everyone">>})
     ELSE IF ~Jok THEN R([s EXCEPT !.dead = TRUE], stuck \cup old \cup contrib \cup vouch \cup agree \cup (IF all THEN secret ELSE {}))
     ELSE R([s EXCEPT !.b = bb, !.dead = ~all, !.rnd = @ \cup UNION {Range(r) : r \in Range(rnds)},
                     !.cov.handoffs = @ + 1, !.cov.refreshed = @ + Cardinality(fin), !.cov.honestq = @ + Cardinality(HN), !.cov.faultyq = @ + Cardinality(FV),
                     !.cov.rejected = @ + Cardinality({z \in N0 \ HN : coms(z) # {} /\ vou[z] = {}}),
                     !.cov.partly = @ + Cardinality({z \in N0 \ HN : vou[z] # {} /\ vou[z] # HN}),
                     !.cov.agreedfaulty = @ + Cardinality(J \ HN)],
            stuck \cup old \cup contrib \cup vouch \cup agree \cup result \cup (IF all THEN secret \cup coalition ELSE {}))

=============================================================================

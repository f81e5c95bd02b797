------------------------------ MODULE VSSTrace ------------------------------
(* Dealing: what an honest dealer sends is one random sharing of its secret with matching commitments, and
   a member adopts a dealing exactly when it verifies. *)
EXTENDS Sharing, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos, st

TInit(t) == [exps |-> Range(t.exps), mem |-> <<>>, sent |-> <<>>, secret |-> "", id |-> "", rnd |-> {}, exp |-> <<>>, recv |-> {}, done |-> {},
             cov |-> [dealings |-> 0, adopt |-> 0, reject |-> 0, either |-> 0, kept |-> 0, foreign |-> 0]]
B(cond, p, r) == IF cond THEN {<<p, r>>} ELSE {}
R(s, bad) == [s |-> s, bad |-> bad]
M(t) == 2 * t.f + 1

\* ---------------------------------------------------------------- the dealer
\* column j of the dealing, from the values sent to members 1..f+1
DealtCol(t, sent, j) == FInterpPoly(Upto(t.f + 1), [i \in 1..(t.f+1) |-> SVal(sent[i-1].b[j+1])])
WellFormed(t, m) == /\ m.haspi /\ m.ok /\ Len(m.b) = M(t) + 1 /\ Len(m.w) = M(t) + 1 /\ Len(m.pi) = M(t) + 1
                    /\ \A j \in 2..(M(t)+1) : SVal(m.b[j]) # "bad" /\ m.pi[j].j = j - 1

\* all random coefficients of a dealing: those of B(x,j) but the constant ones, and those of F but the secret
Rnd(t, b, fp) == [x \in (1..M(t)) \X (2..(t.f+1)) |-> b[x[1]][x[2]]] @@ [x \in {0} \X (2..M(t)) |-> fp[x[2]]]
Small(a) == FLess(a, "100000000000000000000000000000000")
Fresh(t, s, b, fp) ==
  LET r == Rnd(t, b, fp)  v == Range(r) IN
  /\ \A x \in v : ~Small(x) /\ x # s.secret
  /\ v \cap s.rnd = {}
  /\ Cardinality(v) = Cardinality(DOMAIN r)

JudgeShare(t, s, ret) ==
  LET snt == s.sent IN
  IF ~ret THEN {<<"C01", "Share does not return">>}
  ELSE IF DOMAIN snt # 0..(t.n-1) THEN {<<"C01", "Share does not send one dealing to every member">>}
  ELSE IF \E i \in DOMAIN snt : ~WellFormed(t, snt[i]) THEN {<<"C05", "Share sends a malformed dealing">>}
  ELSE
    LET b == [j \in 1..M(t) |-> DealtCol(t, snt, j)]
        f0 == [j \in 1..M(t) |-> b[j][1]]
        fp == FInterpPoly(Upto(M(t)), f0)
        Is(h, e) == h = G1(e)
    IN B(Secret(b) # s.secret, "C01", "the dealing does not share the dealer's secret")
       \cup B(\E i \in DOMAIN snt, j \in 1..M(t) : SVal(snt[i].b[j+1]) # FEval(b[j], FInt(i+1)), "C02", "dealt values are not on one polynomial of degree f in x")
       \cup B(\E i \in DOMAIN snt, j \in 1..M(t) : ~Is(snt[i].w[j+1], Wit(b[j], FInt(i+1))), "C02", "a dealt witness is not that of the value")
       \cup B(\E i \in DOMAIN snt : ~Is(snt[i].gs, s.secret), "C02", "g^s is not that of the secret")
       \cup B(\E i \in DOMAIN snt, j \in 1..M(t) :
               LET c == snt[i].pi[j+1]  z == [b[j] EXCEPT ![1] = F0] IN
               ~Is(c.cb, Com(b[j])) \/ ~Is(c.cz, Com(z)) \/ ~Is(c.wz, Wit(z, F0)) \/ ~Is(c.gf, b[j][1]), "C02", "a public element of the dealing is not that of the shared polynomial")
       \cup B(\E i \in DOMAIN snt : snt[i].t # "VSSSend" \/ snt[i].id # s.id, "C05", "the dealing is not addressed to the instance")
       \* fresh, independent, full-degree randomness
       \cup B(~Fresh(t, s, b, fp), "C04", "the dealing does not use fresh independent random coefficients")

\* exponents of an honest dealing become known
DealExps(t, snt) ==
  LET b == [j \in 1..M(t) |-> DealtCol(t, snt, j)] IN
  {b[j][1] : j \in 1..M(t)} \cup {Com(b[j]) : j \in 1..M(t)} \cup {Com([b[j] EXCEPT ![1] = F0]) : j \in 1..M(t)}
       \cup {Wit([b[j] EXCEPT ![1] = F0], F0) : j \in 1..M(t)} \cup {Wit(b[j], FInt(i)) : i \in 1..t.n, j \in 1..M(t)} \cup {Secret(b)}
DealRnd(t, snt) ==
  LET b == [j \in 1..M(t) |-> DealtCol(t, snt, j)]  fp == FInterpPoly(Upto(M(t)), [j \in 1..M(t) |-> b[j][1]]) IN Range(Rnd(t, b, fp))

\* ---------------------------------------------------------------- the members
\* what must happen with dealing m at member p
Verdict(t, s, p, m) ==
  LET L(h) == G1Log(h, s.exps)
      known(h) == L(h) # "?"
      x == FInt(p + 1)
      long == m.haspi /\ Len(m.b) >= M(t) + 1 /\ Len(m.w) >= M(t) + 1 /\ Len(m.pi) >= M(t) + 1
      J == 2..(M(t)+1)
      decodes == known(m.gs) /\ \A j \in J : known(m.w[j]) /\ known(m.pi[j].cb) /\ known(m.pi[j].cz) /\ known(m.pi[j].wz) /\ known(m.pi[j].gf)
      val(j) == IF SVal(m.b[j]) = "bad" THEN OnlyValue(L(m.pi[j].cb), L(m.w[j]), x) ELSE SVal(m.b[j])
      ok == /\ L(m.gs) = FInterp(Upto(M(t)), [j \in 1..M(t) |-> L(m.pi[j+1].gf)], F0)
            /\ \A j \in J : /\ Check(L(m.pi[j].cz), L(m.pi[j].wz), F0, F0)
                            /\ L(m.pi[j].cb) = FAdd(L(m.pi[j].cz), L(m.pi[j].gf))
                            /\ Check(L(m.pi[j].cb), L(m.w[j]), x, val(j))
      strict == WellFormed(t, m) /\ \A j \in J : m.pi[j].j = j - 1
  IN IF ~long \/ ~decodes \/ ~ok THEN [may |-> FALSE, must |-> FALSE, full |-> <<>>, m |-> <<>>]
     ELSE [may |-> TRUE, must |-> strict, full |-> FInterpPoly(Upto(M(t)), [j \in 1..M(t) |-> val(j+1)]), m |-> m]

Pairs(x) == {<<x.idx[i], x.wit[i]>> : i \in DOMAIN x.idx}
Adopted(t, v, x) ==
  /\ x.full = v.full
  /\ Len(x.idx) = M(t) /\ Pairs(x) = {<<FInt(j), v.m.w[j+1]>> : j \in 1..M(t)}
  /\ x.gs = v.m.gs
  /\ \A j \in 1..M(t) : x.cb[j] = v.m.pi[j+1].cb /\ x.cz[j] = v.m.pi[j+1].cz /\ x.wz[j] = v.m.pi[j+1].wz /\ x.gf[j] = v.m.pi[j+1].gf

Done(t, s, e) ==
  IF e.p \notin s.recv THEN R([s EXCEPT !.mem[e.p] = e.st, !.done = @ \cup {e.p}], {<<"C05", "a member finishes without a dealing">>}) ELSE
  LET v == s.exp[e.p]  ad == Adopted(t, v, e.st)  same == e.st = s.mem[e.p] IN
  R([s EXCEPT !.mem[e.p] = e.st, !.done = @ \cup {e.p},
      !.cov.adopt = @ + (IF v.must THEN 1 ELSE 0), !.cov.either = @ + (IF v.may /\ ~v.must THEN 1 ELSE 0),
      !.cov.reject = @ + (IF v.may THEN 0 ELSE 1), !.cov.kept = @ + (IF ~v.may /\ s.mem[e.p].full # [i \in 1..M(t) |-> F0] THEN 1 ELSE 0)],
    IF v.must THEN B(~ad, "C05", "a dealing that verifies is not adopted as it is")
    ELSE IF v.may THEN B(~ad /\ ~same, "C05", "a member adopts something else than the dealing")
    ELSE B(~same, "C05", "a dealing that does not verify changes the member's state"))

TStep(t, s, e) ==
  CASE e.ev = "init" -> R([s EXCEPT !.mem = @ @@ (e.p :> e.st)], {})
    [] e.ev = "share" -> R([s EXCEPT !.sent = <<>>, !.secret = e.secret, !.id = e.id, !.cov.dealings = @ + 1], {})
    [] e.ev = "deal" -> R([s EXCEPT !.sent = (e.to :> e) @@ @], B(e.to \in DOMAIN s.sent, "C05", "the dealer sends two dealings to a member"))
    [] e.ev = "shared" ->
         LET bad == JudgeShare(t, s, e.ret)
             usable == DOMAIN s.sent = 0..(t.n-1) /\ \A i \in DOMAIN s.sent : WellFormed(t, s.sent[i])
         IN R(IF usable THEN [s EXCEPT !.exps = @ \cup DealExps(t, s.sent), !.rnd = @ \cup DealRnd(t, s.sent)] ELSE s, bad)
    [] e.ev = "recv" -> R([s EXCEPT !.exp = (e.p :> Verdict(t, s, e.p, e)) @@ @, !.recv = @ \cup {e.p}], {})
    [] e.ev = "done" -> Done(t, s, e)
    \* a message of somebody who is not the dealer: as if it had not been sent
    [] e.ev = "foreign" -> R([s EXCEPT !.cov.foreign = @ + 1], {})
    [] e.ev = "stray" -> R(s, {<<"C05", "a member sends a message although dealing needs none">>})
    [] e.ev = "quiet" -> R([s EXCEPT !.recv = {}, !.done = {}],
                           B(s.recv \ s.done # {}, "C05", "a member does not finish although it received the dealing")
                           \cup B(s.recv \ s.done # {}, "C24", "a dealing blocks a member"))
    [] e.ev = "crash" -> R(s, {<<"C05", "a member crashed">>, <<"C24", "a member crashed">>})
    [] e.ev = "hang" -> R(s, {<<"C05", "a member spins or blocks">>, <<"C24", "a member spins or blocks">>})
TCov(t, s) == s.cov
INSTANCE TraceRun
=============================================================================

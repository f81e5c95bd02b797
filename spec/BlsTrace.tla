------------------------------ MODULE BlsTrace ------------------------------
(* Judges programs executed on the real internal/bls against the register machine of Bls.tla. *)
EXTENDS Bls, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos, st

TInit(t) == [f |-> <<>>, v |-> <<>>, g |-> <<>>, h |-> <<>>, gv |-> <<>>, hasg |-> FALSE, strs |-> {}, rnd |-> {}, bad |-> 0,
             cov |-> [ops |-> 0, gops |-> 0, rejected |-> 0, accepted |-> 0, pairT |-> 0, pairF |-> 0, inDomain |-> 0]]
B(cond, p, r) == IF cond THEN {<<p, r>>} ELSE {}
R(s, bad) == [s |-> s, bad |-> bad]

Globals(t, s, e) ==
  R(s, B(e.zero # F0 \/ e.one # F1 \/ e.two # FInt(2) \/ e.m1 # FNeg(F1) \/ e.m2 # FNeg(FInt(2)) \/ e.itwo # FInv(FInt(2))
         \/ e.m1d2 # FDiv(FNeg(F1), FInt(2)), "C21", t.backend \o ": a predefined scalar is wrong or was modified")
       \cup B(\E i \in DOMAIN e.roots : e.roots[i] # FRoot(i-1), "C21", t.backend \o ": a predefined root of unity is wrong or was modified")
       \cup B(e.hasg /\ (e.g1 # G1(F1) \/ e.g2 # G2(F1) \/ e.z1 # G1(F0) \/ e.z1b # G1(F0) \/ e.z2 # G2(F0)), "C21",
              t.backend \o ": a predefined group element is wrong or was modified"))

Load(t, s, e) ==
  R([s EXCEPT !.f = e.f, !.v = e.v, !.hasg = ("ge" \in DOMAIN e),
              !.g = IF "ge" \in DOMAIN e THEN [i \in DOMAIN e.ge |-> El(e.ge[i])] ELSE @,
              !.h = IF "ge" \in DOMAIN e THEN [i \in DOMAIN e.he |-> El2(e.he[i])] ELSE @,
              !.gv = IF "ge" \in DOMAIN e THEN e.gve ELSE @], {})

Valid(e) == CASE e.op \in {"FromCompressedG1", "UnmarshalTextG1"} -> G1Valid(FLower(e.x))
              [] e.op \in {"FromCompressedG2", "UnmarshalTextG2"} -> G2Valid(FLower(e.x))
              [] OTHER -> FALSE

Do(t, s, e0) ==
  LET o == [k \in (DOMAIN e0 \cup {"valid"}) |-> IF k = "valid" THEN Valid(e0) ELSE e0[k]]
      p == PropOf(o.op)
      nm == t.backend \o ": " \o o.op \o " "
      s2 == IF Defined(s, o) THEN Step(s, o) ELSE [s EXCEPT !.f = o.f, !.v = o.v]
      isg == "g" \in DOMAIN o
      judge == Defined(s, o)
      decode == o.op \in {"FromCompressedG1", "UnmarshalTextG1", "FromCompressedG2", "UnmarshalTextG2"}
      wrongf == \E i \in DOMAIN s2.f : o.f[i] # s2.f[i]
      wrongg == isg /\ ((\E i \in DOMAIN s2.g : o.g[i] # s2.g[i].c) \/ (\E i \in DOMAIN s2.h : o.h[i] # s2.h[i].c))
      cov == [s.cov EXCEPT !.ops = @ + 1, !.gops = @ + (IF isg THEN 1 ELSE 0),
                !.rejected = @ + (IF (decode /\ ~o.valid) \/ (o.op \in {"FrFrom32", "ValidFr"} /\ FFromLE(o.x) = "bad") THEN 1 ELSE 0),
                !.accepted = @ + (IF (decode /\ o.valid) \/ (o.op \in {"FrFrom32", "ValidFr"} /\ FFromLE(o.x) # "bad") THEN 1 ELSE 0),
                !.pairT = @ + (IF o.op = "PairingsVerify" /\ o.r THEN 1 ELSE 0), !.pairF = @ + (IF o.op = "PairingsVerify" /\ ~o.r THEN 1 ELSE 0),
                !.inDomain = @ + (IF o.op = "EvaluatePolyInEvaluationForm" /\ (\E i \in DOMAIN s.v[o.a+1] : Domain(Len(s.v[o.a+1]))[i] = s.f[o.b+1]) THEN 1 ELSE 0)]
      bad == B(judge /\ wrongf, p, nm \o "does not give the exact scalar, or changes another register")
        \cup B(judge /\ o.v # s2.v, p, nm \o "modifies an operand or inverts wrongly")
        \cup B(wrongg, p, nm \o "does not give the exact group element, or changes another register")
        \cup B(isg /\ (\E i \in DOMAIN s.gv : o.gv[i] # G1(s.gv[i])), p, nm \o "modifies an operand")
        \cup B(o.op \in ResultOps /\ (o.op = "PairingsVerify" => "?" \notin {s.g[o.xs[1]+1].e, s.g[o.xs[3]+1].e, s.h[o.xs[2]+1].e, s.h[o.xs[4]+1].e})
               /\ o.r # Result(s, o), p, nm \o "returns a wrong result")
        \cup B(decode /\ o.err # ~o.valid, p, nm \o (IF o.err THEN "rejects a canonical encoding" ELSE "accepts an invalid encoding"))
        \cup B(o.op = "UnmarshalNil" /\ ~o.err, p, nm \o "into nil is not an error")
        \cup B("keep" \in DOMAIN o /\ ~o.keep, p, nm \o "modifies its input")
        \cup B("same" \in DOMAIN o /\ ~o.same, p, nm \o "differs from String")
        \cup B(o.op = "RandomFr" /\ (~FIs(o.r) \/ o.r \in s.rnd), p, nm \o "is not canonical or repeats")
        \cup B(o.op = "PolyLinComb" /\ o.err # (\E j \in DOMAIN o.xs : Len(s.v[(o.xs[j] % 2)+1]) # o.d), p, nm \o "accepts or rejects wrong lengths")
        \cup B(o.op = "StrG1" /\ s.g[o.a+1].e \notin {"?", F0} /\ ~(\E i \in 1..(Len(o.xs)-1) : o.xs[i] = G1X(s.g[o.a+1].e) /\ o.xs[i+1] = G1Y(s.g[o.a+1].e)),
               p, nm \o "does not denote the point")
        \cup B(o.op \in {"StrG1", "StrG2"} /\ (\E q \in s.strs : q[1] = o.op /\
                 ((q[2] = o.r) # (q[3] = (IF o.op = "StrG1" THEN s.g[o.a+1].c ELSE s.h[o.a+1].c)))), p, nm \o "is not injective or not stable")
      s3 == [s2 EXCEPT !.cov = cov,
               !.rnd = IF o.op = "RandomFr" THEN @ \cup {o.r} ELSE @,
               !.strs = IF o.op \in {"StrG1", "StrG2"} THEN @ \cup {<<o.op, o.r, IF o.op = "StrG1" THEN s.g[o.a+1].c ELSE s.h[o.a+1].c>>} ELSE @]
      \* continue from what the code really holds, so that one defect is reported once
      s4 == IF bad = {} THEN s3 ELSE
              [s3 EXCEPT !.f = o.f, !.v = o.v,
                 !.g = IF isg THEN [i \in DOMAIN @ |-> IF o.g[i] = @[i].c THEN @[i] ELSE [e |-> "?", c |-> o.g[i]]] ELSE @,
                 !.h = IF isg THEN [i \in DOMAIN @ |-> IF o.h[i] = @[i].c THEN @[i] ELSE [e |-> "?", c |-> o.h[i]]] ELSE @]
  IN R(s4, bad)

TStep(t, s, e) ==
  CASE e.ev = "globals" -> Globals(t, s, e)
    [] e.ev = "load" -> Load(t, s, e)
    [] e.ev = "op" -> Do(t, s, e)
    [] e.ev = "panic" -> R([s EXCEPT !.f = e.f, !.v = e.v], {<<PropOf(e.op), t.backend \o ": " \o e.op \o " panics">>})
    [] e.ev = "crash" -> R(s, {<<"C21", "the process crashed">>, <<"C22", "the process crashed">>, <<"C17", "the process crashed">>})
    [] e.ev = "hang" -> R(s, {<<"C21", "an operation does not return">>, <<"C22", "an operation does not return">>, <<"C17", "an operation does not return">>})
TCov(t, s) == s.cov
INSTANCE TraceRun
=============================================================================

---------------------------- MODULE ReduceTrace ----------------------------
(* Handing over: the honest old members send the public commitments and their values of every column; each
   new member ends up with the commitments and with its column, whatever f old members send. *)
EXTENDS Sharing, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos, st

M(t) == 2 * t.f + 1
TInit(t) == [cols |-> [q \in 0..(t.n-1) |-> Col(t.coefs, FInt(q+1))], sent |-> {}, done |-> {}, fin |-> {},
             cov |-> [sends |-> 0, prepares |-> 0, reduces |-> 0, faulty |-> t.n - Len(t.honest)]]
B(cond, p, r) == IF cond THEN {<<p, r>>} ELSE {}
R(s, bad) == [s |-> s, bad |-> bad]

Send(t, s, e) ==
  LET key == <<e.p, e.t, e.to>>  c == s.cols[e.to]  x == FInt(e.p + 1) IN
  R([s EXCEPT !.sent = @ \cup {key}, !.cov.sends = @ + 1],
    IF e.com # 0 \/ e.tocom # 1 \/ e.t \notin {"Prepare", "ShareReduce"} THEN {<<"C06", "a message nobody expects">>}
    ELSE B(key \in s.sent, "C06", "two messages of a kind to one new member")
    \cup B(e.from # e.p, "C06", "a message that does not name its sender")
    \cup (IF e.t = "Prepare"
          THEN B(Len(e.cb) # M(t) + 1, "C06", "Prepare without all the commitments")
               \cup B(Len(e.cb) = M(t) + 1 /\ \E j \in 1..M(t) : e.cb[j+1] # G1(Com(s.cols[j-1])), "C02", "Prepare carries a wrong commitment")
          ELSE B(e.c # G1(Com(c)), "C02", "ShareReduce carries a wrong commitment")
               \cup B(SVal(e.v) # FEval(c, x), "C02", "ShareReduce carries a wrong value")
               \cup B(e.w # G1(Wit(c, x)), "C02", "ShareReduce carries a wrong witness")
               \* B(p, q+1) is the only private value member q may see
               \cup B(SVal(e.v) # FEval(c, x) /\ SVal(e.v) \in {FEval(t.coefs[j], x) : j \in (1..M(t)) \ {e.to + 1}}, "C04", "ShareReduce discloses a value of another member's column")))

Done(t, s, e) ==
  R([s EXCEPT !.done = @ \cup {<<e.p, e.what>>}, !.cov.prepares = @ + (IF e.what = "prepare" THEN 1 ELSE 0), !.cov.reduces = @ + (IF e.what = "reduce" THEN 1 ELSE 0)],
    IF e.what = "prepare"
    THEN B(\E j \in 1..M(t) : e.st.cb[j] # G1(Com(t.coefs[j])), "C06", "a new member takes over wrong commitments")
    ELSE B(e.st.red # s.cols[e.p], "C06", "a new member takes over a wrong reduced share"))

Quiet(t, s) ==
  R(s, B(\E p \in Range(t.honest) : p \notin s.fin, "C06", "an old member does not finish sending")
       \cup B(\E p \in Range(t.honest), k \in {"Prepare", "ShareReduce"}, q \in 0..(t.n-1) : <<p, k, q>> \notin s.sent, "C06", "a new member is not sent what it needs")
       \cup B(\E q \in 0..(t.n-1) : <<q, "prepare">> \notin s.done, "C06", "a new member does not obtain the commitments")
       \cup B(\E q \in 0..(t.n-1) : <<q, "reduce">> \notin s.done, "C06", "a new member does not obtain its reduced share")
       \cup B(\E q \in 0..(t.n-1), k \in {"prepare", "reduce"} : <<q, k>> \notin s.done, "C24", "old members block a new member"))

TStep(t, s, e) ==
  CASE e.ev = "send" -> Send(t, s, e)
    [] e.ev = "sent" -> R([s EXCEPT !.fin = @ \cup {e.p}], {})
    [] e.ev = "done" -> Done(t, s, e)
    [] e.ev = "quiet" -> Quiet(t, s)
    [] e.ev = "crash" -> R(s, {<<"C06", "a member crashed">>, <<"C24", "a member crashed">>})
    [] e.ev = "hang" -> R(s, {<<"C06", "a member spins or blocks">>, <<"C24", "a member spins or blocks">>})
TCov(t, s) == s.cov
INSTANCE TraceRun
=============================================================================

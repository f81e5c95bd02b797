------------------------------ MODULE RBCTrace ------------------------------
(* Judges recorded executions of party/RBC.go by the rules of RBC.tla. *)
EXTENDS RBC, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos, st

Range(q) == {q[i] : i \in DOMAIN q}
CF(t) == [n |-> t.n, f |-> t.f]
(* JSON sequences are 1-based *)
Enc(t) == [v \in {w \in DOMAIN t.enc : Len(t.enc[w]) > 0} |-> [j \in 0..(t.n-1) |-> t.enc[v][j+1]]]
Honest(t) == Range(t.honest)
All(t) == 0..(t.n-1)

TInit(t) == [nd |-> [p \in Honest(t) |-> RBCInit], psent |-> {}, ended |-> FALSE,
             cov |-> [recv |-> 0, readyE |-> 0, readyA |-> 0, del |-> 0, ign |-> 0]]

B(cond, p, r) == IF cond THEN {<<p, r>>} ELSE {}
R(s, bad) == [s |-> s, bad |-> bad]

Recv(t, s, e) ==
  LET nd == s.nd[e.p]
      nd2 == CASE e.t = "P" -> IF (t.tagged /\ e.s # t.proposer) THEN nd ELSE AcceptPropose(nd, e.h)
               [] e.t = "E" -> AcceptEcho(CF(t), nd, e.s, e.h, e.m)
               [] e.t = "R" -> AcceptReady(CF(t), nd, e.s, e.h, e.m)
  IN R([s EXCEPT !.nd[e.p] = nd2, !.cov.recv = @ + 1, !.cov.ign = @ + (IF nd = nd2 THEN 1 ELSE 0)], {})

Send(t, s, e) ==
  LET nd == s.nd[e.p] enc == Enc(t) IN
  CASE e.t = "P" -> R([s EXCEPT !.psent = @ \cup {e.q}],
                       B(e.p # t.proposer \/ e.h # t.val, "C08", "unexpected proposal"))
    [] e.t = "E" ->
       R([s EXCEPT !.nd[e.p].sentE = @ \cup {e.q}],
         B(~e.own, "C08", "Echo not sent as itself in its instance")
         \cup B(e.h # nd.prop, "C08", "Echo for a value that is not the first proposal received")
         \cup B(e.h \in DOMAIN enc /\ e.m # enc[e.h][e.q], "C08", "Echo carries a wrong shard")
         \cup B(e.q \in nd.sentE, "C08", "more than one Echo to a member"))
    [] e.t = "R" ->
       R([s EXCEPT !.nd[e.p].sentR = @ \cup {e.q}, !.nd[e.p].readyVal = <<e.h, e.m>>,
                   !.cov.readyE = @ + (IF nd.readyVal = <<>> /\ Echos(nd, e.h, e.m) >= t.n - t.f THEN 1 ELSE 0),
                   !.cov.readyA = @ + (IF nd.readyVal = <<>> /\ Echos(nd, e.h, e.m) < t.n - t.f THEN 1 ELSE 0)],
         B(~e.own, "C08", "Ready not sent as itself in its instance")
         \cup B(~ReadyJust(CF(t), nd, e.h, e.m), "C08", "Ready without a quorum of matching Echos")
         \cup B(nd.readyVal # <<>> /\ nd.readyVal # <<e.h, e.m>>, "C08", "Readys for different values")
         \cup B(e.q \in nd.sentR, "C08", "more than one Ready to a member"))
    [] OTHER -> R(s, B(TRUE, "C08", "unknown message sent"))

Del(t, s, e) ==
  LET nd == s.nd[e.p]  enc == Enc(t) IN
  R([s EXCEPT !.nd[e.p].out = e.h, !.cov.del = @ + 1],
    B(nd.out # "none", "C08", "delivered twice")
    \cup B(\E q \in Honest(t) : s.nd[q].out \notin {"none", e.h}, "C08", "two honest members delivered different values")
    \cup B(t.phon /\ e.h # t.val, "C08", "delivered something the honest proposer did not send")
    \cup B(~Deliverable(CF(t), enc, nd, e.h), "C08", "delivered without enough Readys and correct shards"))

(* Nothing is in flight any more: everything that had to happen has happened. *)
Quiet(t, s) ==
  LET enc == Enc(t) IN
  R([s EXCEPT !.ended = TRUE],
    UNION {LET nd == s.nd[p] IN
      B(nd.prop \in DOMAIN enc /\ nd.sentE # All(t), "C09", "proposal received but not echoed to everyone")
      \cup B(ReadyOptions(CF(t), nd) # {} /\ nd.sentR # All(t), "C09", "Ready due but not sent to everyone")
      \cup B(DeliverOptions(CF(t), enc, nd) # {} /\ nd.out = "none", "C09", "value can be decoded but was not delivered")
      \cup B(t.phon /\ nd.out = "none", "C09", "proposer is honest but a member did not deliver")
      \cup B(nd.out = "none" /\ \E q \in Honest(t) : s.nd[q].out # "none", "C09", "one honest member delivered, another did not")
      : p \in Honest(t)}
    \cup B(t.phon /\ Cardinality(Honest(t)) < t.n /\ \E p \in Honest(t) : s.nd[p].out = "none", "C24", "faulty members keep an honest one from delivering")
    \cup B(t.phon /\ s.psent # All(t), "C09", "the proposal was not sent to every member"))

TStep(t, s, e) ==
  CASE e.ev = "recv" -> Recv(t, s, e)
    [] e.ev = "send" -> Send(t, s, e)
    [] e.ev = "del"  -> Del(t, s, e)
    [] e.ev = "quiet" -> Quiet(t, s)
    [] e.ev = "crash" -> R(s, {<<"C09", "a member crashed">>, <<"C24", "a member crashed">>})
    [] e.ev = "hang" -> R(s, {<<"C09", "a member spins or blocks">>, <<"C24", "a member spins or blocks">>})
TCov(t, s) == s.cov

INSTANCE TraceRun
=============================================================================

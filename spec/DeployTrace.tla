----------------------------- MODULE DeployTrace -----------------------------
(***************************************************************************)
(* The program as it is deployed: one run generates the key material, then *)
(* one process per member of the old and of the new committee (or of the   *)
(* only one) and one for the client carry a secret through a whole epoch.  *)
(*                                                                         *)
(* What the processes send each other is a dealing and a handoff and is    *)
(* judged by Handoff; only what a member holds is not visible, and is what *)
(* the members send each other in the end.  A process is in one of the     *)
(* phases  started, dealt, handed over, refreshed, reported;  a correct    *)
(* process goes through all the phases of its role and does not end by     *)
(* itself, whatever up to f processes of each committee do.                *)
(***************************************************************************)
EXTENDS Handoff, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos, st

All(bad) == {<<"C25", b[2]>> : b \in bad}
D0(t) == [h |-> TInit(t), cov |-> [epochs |-> 0, killed |-> 0, reports |-> 0]]
Coefs(t, e) ==
  LET l == <<e.a, e.b>>  all == Range(e.a) \cup Range(e.b) IN
  B(\E k \in 1..2 : Len(l[k]) # M(t), "C25", "the key files do not hold a polynomial of the threshold's degree for each committee")
  \cup B(Cardinality(all) # Len(e.a) + Len(e.b) \/ \E x \in all : Small(x), "C25", "the key files do not hold fresh random coefficients")
\* the correct members' parts of a coin are signatures of one message, each by its owner's share of the key of the file
Signed(t, s) ==
  LET E == SubSeq(t.ev, s.lo, s.at - 1)  D == {i \in DOMAIN E : E[i].ev = "send" /\ E[i].t = "Done" /\ E[i].good} IN
  B(\E i \in D : E[i].idx # E[i].p, "C25", "a member signs under another index than its own")
  \cup B(\E i \in D, j \in D : E[i].inst = E[j].inst /\ (E[i].base # E[j].base \/ E[i].base = ""), "C25", "a member does not sign with its share of the committee's key")
\* what a role reports at the end
Reports(role) == IF role = "old" THEN {"prepare", "reduce"} ELSE {"prepare", "reduce", "proactivize", "dist"}
Proc(t, e) ==
  IF e.p \in Range(t.faulty[e.com+1]) THEN {} ELSE
  B(e.exited, "C25", "a correct process ends by itself")
  \cup B(~e.exited /\ Reports(e.role) \ Range(e.report) # {}, "C25", "a correct process does not come to the end of its part")
  \cup B(e.negative, "C25", "a process reports that a step took less than no time")

Step(t, d, e) ==
  LET s == d.h  r(x) == [s |-> [d EXCEPT !.h = x.s], bad |-> All(x.bad)] IN
  CASE e.ev \in {"crash", "hang"} -> R([d EXCEPT !.h.dead = TRUE], {<<"C25", "the processes do not come to an end">>})
    [] e.ev = "coefs" -> R(d, Coefs(t, e))
    [] e.ev = "share" -> r(R([s EXCEPT !.secret = e.secret, !.lo = s.at + 1], {}))
    [] e.ev = "dealt" -> r(Dealt(t, s))
    [] e.ev = "handoff" -> r(R([s EXCEPT !.lo = s.at + 1, !.h = e.h, !.a = e.a, !.c = e.b], {}))
    [] e.ev = "quiet" -> IF s.dead \/ t.cut THEN R(d, Signed(t, s)) ELSE LET x == r(Judge(t, s)) IN R([x.s EXCEPT !.cov.epochs = @ + 1], x.bad \cup Signed(t, s))
    [] e.ev = "proc" -> R([d EXCEPT !.cov.reports = @ + Len(e.report), !.cov.killed = @ + (IF e.p \in Range(t.faulty[e.com+1]) THEN 1 ELSE 0)], Proc(t, e))
    [] OTHER -> R(d, {})
TInit2(t) == D0(t)
TStep(t, d, e) == Step(t, [d EXCEPT !.h.at = @ + 1], e)
TCov(t, d) == d.cov @@ d.h.cov
INSTANCE TraceRun WITH TInit <- TInit2
=============================================================================

------------------------------ MODULE NetTrace ------------------------------
(***************************************************************************)
(* Sending, dispatching and payloads.  A link leads from a sender to one   *)
(* instance (a type and identifier, numbered k) of one member j of the     *)
(* current (c = 0) or the next committee (c = 1); it behaves like a        *)
(* connection of Transport: first in, first out, nothing lost, doubled or  *)
(* invented.                                                               *)
(* Events: op [by, call, des, k, m] - a sending function is called; ret    *)
(* [by, call, des, err] - it returns; arrive [s, c, j, k, m] - a message   *)
(* of s arrives at a member; got [s, c, j, k, m] - that member's instance  *)
(* is handed it; enc - a payload and its envelope before and after their   *)
(* encoding; quiet [ks] - all that was due has had its time (ks: instances *)
(* that are running; absent: all).                                         *)
(* A member receives what arrives for an instance in its order of arrival, *)
(* from all senders together, when it arrives at one place; members that   *)
(* send on their own have only an order each.                              *)
(***************************************************************************)
EXTENDS Transport, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos, st
TInit(t) == [l |-> [x \in {} |-> Fresh],
             cov |-> [sent |-> 0, refused |-> 0, arrived |-> 0, got |-> 0, encoded |-> 0, instances |-> 0, left |-> 0]]
R(s, bad) == [s |-> s, bad |-> bad]
B(c, why) == IF c THEN {<<"C15", why>>} ELSE {}
To(l, x, m) == IF x \in DOMAIN l THEN [l EXCEPT ![x] = Hand(@, m)] ELSE (x :> Hand(Fresh, m)) @@ l
\* the recipients of a call: <<committee, member>>; the senders of the next committee are numbered from 100 and have no further one
Own(by) == IF by >= 100 THEN 1 ELSE 0
Valid(n, des) == des >= 0 /\ des < n
Recipients(n, by, call, des) ==
  CASE call = "Send" -> IF Valid(n, des) THEN {<<Own(by), des>>} ELSE {}
    [] call = "SendToNextCommittee" -> IF Valid(n, des) THEN {<<1, des>>} ELSE {}
    [] call = "Broadcast" -> {<<Own(by), j>> : j \in 0..n - 1}
    [] call = "BroadcastExclude" -> {<<Own(by), j>> : j \in (0..n - 1) \ {des}}
    [] call = "BroadcastToNextCommittee" -> {<<1, j>> : j \in 0..n - 1}
Fails(n, call, des) == call \in {"Send", "SendToNextCommittee"} /\ ~Valid(n, des)
RECURSIVE HandAll(_, _, _, _, _)
HandAll(l, by, k, m, d) == IF d = {} THEN l ELSE LET x == CHOOSE y \in d : TRUE IN HandAll(To(l, <<by, x[1], x[2], k>>, m), by, k, m, d \ {x})
\* the link of an arrival has no sender: one order for all
Link(e, l) == IF <<-1, e.c, e.j, e.k>> \in DOMAIN l THEN <<-1, e.c, e.j, e.k>> ELSE <<e.s, e.c, e.j, e.k>>
Misplaced(l, e) == LET h == {x \in DOMAIN l : Has(l[x], e.m)} IN
  IF h = {} THEN "a message is received that was not sent"
  ELSE IF \E x \in h : x[2] = e.c /\ x[3] = e.j /\ x[4] = e.k THEN "an instance is handed a message twice or out of order"
  ELSE IF \E x \in h : x[2] = e.c /\ x[3] = e.j THEN "a message is handed to an instance it is not addressed to"
  ELSE "a message reaches a member it is not addressed to"
Running(e, x) == "ks" \notin DOMAIN e \/ \E i \in DOMAIN e.ks : e.ks[i] = x[4]
TStep(t, s, e) ==
  CASE e.ev = "op" -> R([s EXCEPT !.l = HandAll(@, e.by, e.k, e.m, Recipients(t.n, e.by, e.call, e.des)), !.cov.sent = @ + 1], {})
    [] e.ev = "ret" -> R([s EXCEPT !.cov.refused = @ + (IF e.err THEN 1 ELSE 0)],
                         B(e.err /\ ~Fails(t.n, e.call, e.des), "sending to a member fails") \cup B(~e.err /\ Fails(t.n, e.call, e.des), "sending to nobody succeeds"))
    [] e.ev = "arrive" -> R([s EXCEPT !.l = To(@, <<-1, e.c, e.j, e.k>>, e.m), !.cov.arrived = @ + 1], {})
    [] e.ev = "got" ->
         LET x == Link(e, s.l) IN
         IF x \in DOMAIN s.l /\ CanTake(s.l[x], e.m) THEN R([s EXCEPT !.l[x] = Take(@, e.m), !.cov.got = @ + 1], {})
         ELSE R(s, B(TRUE, Misplaced(s.l, e)))
    [] e.ev = "enc" -> R([s EXCEPT !.cov.encoded = @ + 1],
                         B(e.want # e.have, "a payload decodes to something else than was encoded")
                         \cup B(e.env # e.envHave, "the envelope of a payload is not what was stated")
                         \cup B(e.want # e.after, "encoding changes the payload"))
    [] e.ev = "quiet" -> R([s EXCEPT !.cov.instances = Cardinality({<<x[2], x[3], x[4]>> : x \in DOMAIN s.l}),
                                     !.cov.left = Cardinality({x \in DOMAIN s.l : ~Complete(s.l[x])})],
                           B(\E x \in DOMAIN s.l : Running(e, x) /\ ~Complete(s.l[x]), "a message is not handed to the instance it is addressed to"))
    [] e.ev = "stuck" -> R(s, B(TRUE, "a message is not taken in") \cup {<<"C24", "messages are not taken in any more">>})
    [] e.ev = "crash" -> R(s, B(TRUE, "the process ended") \cup {<<"C24", "the process ended">>})
    [] e.ev = "hang" -> R(s, B(TRUE, "the process hangs") \cup {<<"C24", "the process hangs">>})
TCov(t, s) == s.cov
INSTANCE TraceRun
=============================================================================

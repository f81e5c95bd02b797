--------------------------- MODULE TransportTrace ---------------------------
(***************************************************************************)
(* Judges recorded use of the transport by Transport.tla: every link is a  *)
(* queue; what a destination receives is the head of a queue that leads to *)
(* it; and when all is quiet, what was completely transmitted is received. *)
(* Events: hand [l, m] - message m is handed to link l; got [d, m];        *)
(* bad [l] - the peer breaks the framing or closes in the middle: the rest *)
(* of this link is at its own risk; cut [l, n] - the stream of link l ends *)
(* after n whole messages; quiet.                                          *)
(***************************************************************************)
EXTENDS Transport, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos, st
TInit(t) == [l |-> [i \in 1..Len(t.dst) |-> Fresh],
             cov |-> [handed |-> 0, got |-> 0, bad |-> 0, cuts |-> 0, biggest |-> 0]]
R(s, bad) == [s |-> s, bad |-> bad]
B(c, why) == IF c THEN {<<"C14", why>>} ELSE {}
\* links to d whose next message is m
Next_(t, s, d, m) == {i \in DOMAIN s.l : t.dst[i] = d /\ CanTake(s.l[i], m)}
Somewhere(t, s, d, m) == \E i \in DOMAIN s.l : t.dst[i] = d /\ Has(s.l[i], m)
TStep(t, s, e) ==
  CASE e.ev = "hand" -> R([s EXCEPT !.l[e.l + 1] = Hand(@, e.m), !.cov.handed = @ + 1, !.cov.biggest = IF e.len > @ THEN e.len ELSE @], {})
    [] e.ev = "bad" -> R([s EXCEPT !.l[e.l + 1] = Break(@), !.cov.bad = @ + 1], {})
    [] e.ev = "cut" -> R([s EXCEPT !.l[e.l + 1] = Cut(@, e.n), !.cov.cuts = @ + 1], {})
    [] e.ev = "got" ->
         LET c == Next_(t, s, e.d, e.m) IN
         IF c = {} THEN R(s, B(TRUE, IF Somewhere(t, s, e.d, e.m) THEN "a message is delivered twice, or out of order" ELSE "a message is delivered that was not sent there"))
         ELSE R([s EXCEPT !.l = [@ EXCEPT ![CHOOSE i \in c : TRUE] = Take(@, e.m)], !.cov.got = @ + 1], {})
    [] e.ev = "quiet" -> R(s, B(\E i \in DOMAIN s.l : ~Complete(s.l[i]), "a message is not delivered"))
    [] e.ev = "stuck" -> R(s, B(TRUE, "a sender is blocked"))
    [] e.ev = "crash" -> R(s, B(TRUE, "the process ended") \cup {<<"C24", "the process ended">>})
    [] e.ev = "hang" -> R(s, B(TRUE, "the process hangs") \cup {<<"C24", "the process hangs">>})
TCov(t, s) == s.cov
INSTANCE TraceRun
=============================================================================

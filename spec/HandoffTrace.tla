---------------------------- MODULE HandoffTrace ----------------------------
(* Recorded histories of dealings and handoffs, judged by Handoff. *)
EXTENDS Handoff, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos, st

Step(t, s, e) ==
  CASE e.ev = "crash" -> R([s EXCEPT !.dead = TRUE], {<<"C01", "a member crashed">>, <<"C24", "a member crashed">>})
    [] e.ev = "hang" -> R([s EXCEPT !.dead = TRUE], {<<"C01", "a member spins or blocks">>, <<"C24", "a member spins or blocks">>})
    [] e.ev = "share" -> R([s EXCEPT !.secret = e.secret, !.lo = s.at + 1], {})
    [] e.ev = "dealt" -> Dealt(t, s)
    [] e.ev = "handoff" -> R([s EXCEPT !.lo = s.at + 1, !.h = e.h, !.a = e.a, !.c = e.b], {})
    [] e.ev = "quiet" -> IF s.dead THEN R(s, {}) ELSE Judge(t, s)
    [] OTHER -> R(s, {})
TStep(t, s, e) == Step(t, [s EXCEPT !.at = @ + 1], e)
TCov(t, s) == s.cov
INSTANCE TraceRun
=============================================================================

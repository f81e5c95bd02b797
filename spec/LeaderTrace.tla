----------------------------- MODULE LeaderTrace -----------------------------
(***************************************************************************)
(* The leaders of many agreements together.  An election is                *)
(* <<key, instance, round>> -> leader; nothing else may have an influence, *)
(* everything in it must, and everybody must be elected.                   *)
(* Events: elect [key, iid, r, l, n, free] (free: the instance was not     *)
(* chosen for its leaders), and end.                                       *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos, st
TInit(t) == [e |-> {}, cov |-> [elections |-> 0, repeated |-> 0, samples |-> 0, keys |-> 0, instances |-> 0]]
R(s, bad) == [s |-> s, bad |-> bad]
B(c, why) == IF c THEN {<<"C13", why>>} ELSE {}
Free(s, n) == {x \in s.e : x[5] = n /\ x[6]}
\* a value taken in every one of k independent elections is no accident when N^-(k-1) is tiny
Many(n) == IF n <= 4 THEN 24 ELSE 16
Stuck(S, n) == Cardinality(S) >= Many(n) /\ Cardinality({x[4] : x \in S}) = 1
Share(S, l) == Cardinality({x \in S : x[4] = l})
TStep(t, s, e) ==
  CASE e.ev = "elect" ->
        LET k == <<e.key, e.iid, e.r, e.l, e.n, e.free>> IN
        R([s EXCEPT !.e = @ \cup {k}, !.cov.repeated = IF k \in s.e THEN @ + 1 ELSE @],
          B(e.l \notin 0..(e.n-1), "somebody outside the committee is elected")
          \cup B(\E x \in s.e : x[1] = e.key /\ x[2] = e.iid /\ x[3] = e.r /\ x[4] # e.l, "the same coin elects different leaders"))
    [] e.ev = "end" ->
        LET ns == {x[5] : x \in s.e} IN
        R([s EXCEPT !.cov.elections = Cardinality(s.e), !.cov.samples = Cardinality({x \in s.e : x[6]}),
                    !.cov.keys = Cardinality({x[1] : x \in s.e}), !.cov.instances = Cardinality({<<x[2], x[3]>> : x \in s.e})],
          UNION {B(Stuck(Free(s, n), n), "always the same leader") : n \in ns}
          \cup UNION {B(\E i \in {<<x[2], x[3]>> : x \in Free(s, n)} : Stuck({x \in Free(s, n) : <<x[2], x[3]>> = i}, n), "the leader does not depend on the committee's keys") : n \in ns}
          \cup UNION {B(\E i \in {x[1] : x \in Free(s, n)} : Stuck({x \in Free(s, n) : x[1] = i}, n), "the leader does not depend on the instance and the round") : n \in ns}
          \* 60 elections with four candidates: fewer than two for one of them once in a million
          \cup UNION {B(Cardinality(Free(s, n)) >= 15 * n /\ \E l \in 0..(n-1) : 8 * n * Share(Free(s, n), l) < Cardinality(Free(s, n)), "a member is (almost) never elected") : n \in ns})
TCov(t, s) == s.cov
INSTANCE TraceRun
=============================================================================

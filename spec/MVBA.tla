-------------------------------- MODULE MVBA --------------------------------
(***************************************************************************)
(* The agreement (party/main_process.go, message_handler.go, spb.go, pb.go)*)
(*                                                                         *)
(* What honest members have done, h:                                       *)
(*   prop  <<p, r, v>>        p proposes v in round r                      *)
(*   ack   <<p, r, j, st, v>> p acknowledged v of member j, stage st       *)
(*   pv    <<p, r, x, v>>     p's PreVote, x in {"yes", "no"}              *)
(*   vt    <<p, r, x, v>>     p's Vote                                     *)
(*   out   <<p, v>>           p's decision                                 *)
(* A certificate is 2f+1 shares of distinct members; the faulty ones give  *)
(* theirs for anything.  Certificates are therefore possible exactly when  *)
(* enough honest members gave their share.  cf = [f, bad]; led[r]: leader. *)
(*                                                                         *)
(* MVBADesign.tla explores all behaviours; MVBATrace.tla requires every    *)
(* act of an honest member of the implementation to satisfy these rules.   *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences

HInit == [prop |-> {}, ack |-> {}, pv |-> {}, vt |-> {}, out |-> {}]
Backed(cf, S) == Cardinality(S) + Cardinality(cf.bad) >= 2 * cf.f + 1

Acked(h, r, j, s, v) == {x[1] : x \in {y \in h.ack : y[2] = r /\ y[3] = j /\ y[4] = s /\ y[5] = v}}
Voted(h, r, x, v) == {y[1] : y \in {z \in h.vt : z[2] = r /\ z[3] = x /\ z[4] = v}}

\* certificates that can exist
Lock(cf, h, r, j, v)   == Backed(cf, Acked(h, r, j, 1, v))
\* a Yes vote for the leader's value acknowledges it in the second stage, too
Final(cf, h, led, r, j, v) == Backed(cf, Acked(h, r, j, 2, v) \cup (IF led = j THEN Voted(h, r, "yes", v) ELSE {}))
NoLock(cf, h, r)       == Backed(cf, {x[1] : x \in {y \in h.pv : y[2] = r /\ y[3] = "no"}})
Unlock(cf, h, r)       == Backed(cf, Voted(h, r, "no", ""))

\* what a finished round proves: values that can be shown locked, values that can be decided, and
\* whether the round can be shown to be unlocked
AllVals(h, r) == {x[5] : x \in {y \in h.ack : y[2] = r}} \cup {x[4] : x \in {y \in h.vt : y[2] = r /\ y[3] = "yes"}}
Facts(cf, h, led, r) == [lock |-> {v \in AllVals(h, r) : Lock(cf, h, r, led, v)},
                         final |-> {v \in AllVals(h, r) : Final(cf, h, led, r, led, v)},
                         unlock |-> Unlock(cf, h, r)]
\* v may be proposed in round r, fs[k + 1] being the facts of round k
RECURSIVE Just(_, _, _)
Just(fs, r, v) == IF r = 0 THEN TRUE ELSE IF v \in fs[r].lock THEN TRUE ELSE fs[r].unlock /\ Just(fs, r - 1, v)

\* rules of an honest member
Single(S, k, n) == \A x \in S : SubSeq(x, 1, n) = SubSeq(k, 1, n) => x = k
MayPropose(h, fs, p, r, v) == Single(h.prop, <<p, r, v>>, 2) /\ Just(fs, r, v)
MayAck1(cf, h, fs, p, r, j, v) ==
  /\ Single(h.ack, <<p, r, j, 1, v>>, 4)
  /\ j \notin cf.bad => <<j, r, v>> \in h.prop
  /\ Just(fs, r, v)
MayAck2(cf, h, p, r, j, v) ==
  /\ Single(h.ack, <<p, r, j, 2, v>>, 4)
  /\ Lock(cf, h, r, j, v)
MayPreVoteYes(cf, h, led, p, r, v) == Single(h.pv, <<p, r, "yes", v>>, 2) /\ Lock(cf, h, r, led, v)
MayPreVoteNo(h, p, r) == Single(h.pv, <<p, r, "no", "">>, 2)
MayVoteYes(cf, h, led, p, r, v) == Single(h.vt, <<p, r, "yes", v>>, 2) /\ Lock(cf, h, r, led, v)
Locked(h, led, p, r) == \E x \in h.ack : x[1] = p /\ x[2] = r /\ x[3] = led /\ x[4] = 2
\* a No vote of a member that acknowledged the second stage could be used together with that acknowledgement
MayVoteNo(cf, h, led, p, r) == Single(h.vt, <<p, r, "no", "">>, 2) /\ NoLock(cf, h, r) /\ ~Locked(h, led, p, r)
\* whoever acknowledged the leader's second stage has the lock and must not deny it
Denies(h, led, p, r) == (<<p, r, "no", "">> \in h.pv \/ <<p, r, "no", "">> \in h.vt) /\ Locked(h, led, p, r)
=============================================================================

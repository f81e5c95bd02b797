----------------------------- MODULE MVBADesign -----------------------------
(***************************************************************************)
(* All behaviours of the agreement's rules over some rounds: members may   *)
(* take or leave any allowed step, faulty members contribute to every      *)
(* certificate, and the leaders are anybody.  Only the leader's broadcast  *)
(* of a round can influence a decision, so only that one is represented.   *)
(*                                                                         *)
(* What a step requires of others (certificates) only ever becomes true,   *)
(* and only by steps of earlier phases and rounds; what it requires of the *)
(* member itself are that member's own steps.  Hence every history is also *)
(* reached when the steps are taken phase by phase, member by member, and  *)
(* that is the order explored here.  Of finished rounds only the facts are *)
(* kept.                                                                   *)
(*                                                                         *)
(* A decision needs a final certificate, and those that can exist stay     *)
(* possible: decisions need no transition of their own, and a member that  *)
(* goes on although it could decide only adds histories.                   *)
(***************************************************************************)
EXTENDS MVBA, TLC
CONSTANTS N, F, Rounds, Values
VARIABLES h,    \* acts of the current round
          fs,   \* facts of the earlier rounds
          led, rd, ph, at, own

Bad == (N-F)..(N-1)
Honest == 0..(N-F-1)
cf == [f |-> F, bad |-> Bad]
Leaders == {0, N-F-1, N-1}     \* honest members differ only in their number
Phases == <<"ack1", "ack2", "pv", "vt", "enter">>
Init == /\ rd = 0 /\ ph = 1 /\ at = 0 /\ fs = <<>>
        /\ led \in Leaders
        /\ own \in [Honest -> Values]
        /\ h = [HInit EXCEPT !.prop = {<<p, 0, own[p]>> : p \in Honest}]
Here(p) == \E x \in h.prop : x[1] = p
PV(p) == \E x \in h.pv : x[1] = p
VT(p) == \E x \in h.vt : x[1] = p
Adv == IF at < N - F - 1 THEN at' = at + 1 /\ ph' = ph ELSE at' = 0 /\ ph' = ph + 1
Add(k, x) == h' = [h EXCEPT ![k] = @ \cup {x}]
Ack1(p) == \E v \in Values : MayAck1(cf, h, fs, p, rd, led, v) /\ Add("ack", <<p, rd, led, 1, v>>)
Ack2(p) == \E v \in Values : MayAck2(cf, h, p, rd, led, v) /\ Add("ack", <<p, rd, led, 2, v>>)
PreVote(p) == LET L == {x \in h.ack : x[1] = p /\ x[4] = 2} IN
  IF L = {} THEN MayPreVoteNo(h, p, rd) /\ Add("pv", <<p, rd, "no", "">>)
  ELSE \E x \in L : MayPreVoteYes(cf, h, led, p, rd, x[5]) /\ Add("pv", <<p, rd, "yes", x[5]>>)
Vote(p) == PV(p) /\ (\/ \E v \in Values : MayVoteYes(cf, h, led, p, rd, v) /\ Add("vt", <<p, rd, "yes", v>>)
                     \/ MayVoteNo(cf, h, led, p, rd) /\ Add("vt", <<p, rd, "no", "">>))
Step == /\ ph < 5 /\ Adv /\ UNCHANGED <<fs, led, rd, own>>
        /\ \/ UNCHANGED h
           \/ ph = 1 /\ Here(at) /\ Ack1(at)
           \/ ph = 2 /\ Here(at) /\ Ack2(at)
           \/ ph = 3 /\ Here(at) /\ PreVote(at)
           \/ ph = 4 /\ Here(at) /\ Vote(at)
\* the next round: each member whose round is complete may enter it, with its own value or with the locked one
Complete == Cardinality({x[1] : x \in h.vt}) + F >= 2 * F + 1
Enter == LET f2 == TLCEval(Append(fs, Facts(cf, h, led, rd))) IN
  /\ ph = 5 /\ rd + 1 < Rounds /\ Complete
  /\ \E S \in SUBSET {p \in Honest : Here(p) /\ PV(p)} : \E w \in [S -> Values] :
       /\ S # {}
       /\ \A p \in S : ((w[p] = own[p] /\ f2[rd + 1].unlock) \/ w[p] \in f2[rd + 1].lock) /\ MayPropose(HInit, f2, p, rd + 1, w[p])
       /\ h' = [HInit EXCEPT !.prop = {<<p, rd + 1, w[p]>> : p \in S}]
       /\ own' = [p \in Honest |-> IF p \in S THEN w[p] ELSE CHOOSE v \in Values : TRUE]
  /\ fs' = f2 /\ rd' = rd + 1 /\ ph' = 1 /\ at' = 0
  /\ led' \in Leaders
Next == Step \/ Enter
Spec == Init /\ [][Next]_<<h, fs, led, rd, ph, at, own>>

Now == Facts(cf, h, led, rd)
Finals == TLCEval(UNION {fs[i].final : i \in DOMAIN fs} \cup Now.final)
Agreement == Cardinality(Finals) <= 1
LockOnce == Cardinality(Now.lock) <= 1
NoUnlock == ~(Now.final # {} /\ Now.unlock)
NoDenial == \A p \in Honest : ~Denies(h, led, p, rd)
Safe == Agreement /\ LockOnce /\ NoUnlock /\ NoDenial
=============================================================================

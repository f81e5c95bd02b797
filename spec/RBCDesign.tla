----------------------------- MODULE RBCDesign -----------------------------
(***************************************************************************)
(* All histories of one reliable broadcast under the rules of RBC.tla.     *)
(*                                                                         *)
(* The evidence for a step (Echos, Readys) only grows, and a message once  *)
(* sent reaches everybody.  A step of a member MAY therefore happen when   *)
(* the strongest evidence that the messages sent so far and the faulty     *)
(* members can make up justifies it, and it MUST have happened at the end  *)
(* when the evidence of the honest members alone does.  The histories of   *)
(* the members' own steps (first proposal, Ready, delivery) that may       *)
(* happen are explored, with what each of them saw left open.              *)
(***************************************************************************)
EXTENDS RBC, TLC
CONSTANTS N, F, Values, ProposerHonest
VARIABLES prop,  \* first proposal received and echoed
          rdy,   \* <<value, shard>> of the Ready
          out
Bad == (N-F)..(N-1)
Honest == 0..(N-F-1)
cf == [n |-> N, f |-> F]
V0 == CHOOSE v \in Values : TRUE
enc == [v \in Values |-> [j \in 0..(N-1) |-> <<v, j>>]]
Shards(p, v) == {enc[v][p], <<"wrong", 0>>}
vars == <<prop, rdy, out>>

Ech(p) == {[s |-> s, h |-> prop[s], m |-> enc[prop[s]][p]] : s \in {q \in Honest : prop[q] # "none"}}
Rdy == {[s |-> s, h |-> rdy[s][1], m |-> rdy[s][2]] : s \in {q \in Honest : rdy[q] # <<>>}}
\* the evidence at p for (v, m): all of the honest members', and the faulty ones support it
Most(p, v, m) == [RBCInit EXCEPT !.echo = Ech(p) \cup {[s |-> s, h |-> v, m |-> m] : s \in Bad},
                                 !.ready = Rdy \cup {[s |-> s, h |-> v, m |-> enc[v][s]] : s \in Bad}]
\* what p has in any case, in the end
Least(p) == [RBCInit EXCEPT !.echo = Ech(p), !.ready = Rdy]

Init == prop = [p \in Honest |-> "none"] /\ rdy = [p \in Honest |-> <<>>] /\ out = [p \in Honest |-> "none"]
Propose(p) == prop[p] = "none" /\ \E v \in Values : (ProposerHonest => v = V0) /\ prop' = [prop EXCEPT ![p] = v] /\ UNCHANGED <<rdy, out>>
Ready(p) == rdy[p] = <<>> /\ \E v \in Values : \E m \in Shards(p, v) :
              ReadyJust(cf, Most(p, v, m), v, m) /\ rdy' = [rdy EXCEPT ![p] = <<v, m>>] /\ UNCHANGED <<prop, out>>
Deliver(p) == out[p] = "none" /\ \E v \in Values : \E m \in Shards(p, v) :
              Deliverable(cf, enc, Most(p, v, m), v) /\ out' = [out EXCEPT ![p] = v] /\ UNCHANGED <<prop, rdy>>
Next == \E p \in Honest : Propose(p) \/ Ready(p) \/ Deliver(p)
Spec == Init /\ [][Next]_vars

\* nothing that must happen is left
Due(p) == \/ ProposerHonest /\ prop[p] = "none"
          \/ rdy[p] = <<>> /\ ReadyOptions(cf, Least(p)) # {}
          \/ out[p] = "none" /\ DeliverOptions(cf, enc, Least(p)) # {}
AtRest == \A p \in Honest : ~Due(p)
Outs == {out[p] : p \in Honest} \ {"none"}

Agreement == Cardinality(Outs) <= 1
OneReady  == Cardinality({rdy[p][1] : p \in {q \in Honest : rdy[q] # <<>>}}) <= 1
TrueShard == \A p \in Honest : rdy[p] # <<>> => rdy[p][2] = enc[rdy[p][1]][p]
Validity  == ProposerHonest => Outs \subseteq {V0}
Totality  == AtRest /\ Outs # {} => \A p \in Honest : out[p] # "none"
Delivery  == AtRest /\ ProposerHonest => \A p \in Honest : out[p] = V0
Safe == Agreement /\ OneReady /\ TrueShard /\ Validity /\ Totality /\ Delivery
=============================================================================

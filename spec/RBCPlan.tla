------------------------------ MODULE RBCPlan ------------------------------
(***************************************************************************)
(* Random behaviours of the broadcast with explicit messages, by the rules *)
(* of RBC.tla (tlc -simulate), written down as plans for the               *)
(* implementation: the exact order of all deliveries and what the faulty   *)
(* members send.  Members react to a message at once.                      *)
(***************************************************************************)
EXTENDS RBC, Sequences, TLC, Json
CONSTANTS N, F
VARIABLES nd, net, hist, mode, over
Bad == (N-F)..(N-1)
Honest == 0..(N-F-1)
cf == [n |-> N, f |-> F]
Values == {"v0", "v1"}
enc == [v \in Values |-> [j \in 0..(N-1) |-> <<v, j>>]]
\* mode: [ph: the proposer is honest, fair: of 10 steps how many deliver honest messages, late: a member that is served last]
Init == /\ mode \in [ph : BOOLEAN, fair : {3, 6, 8, 9}, late : 0..(2*N)]
        /\ nd = [p \in Honest |-> RBCInit]
        /\ net = IF mode.ph THEN {[t |-> "P", s |-> 0, p |-> p, h |-> "v0", m |-> <<>>] : p \in Honest} ELSE {}
        /\ hist = <<>> /\ over = FALSE
Accept(d, x) == CASE x.t = "P" -> AcceptPropose(d, x.h) [] x.t = "E" -> AcceptEcho(cf, d, x.s, x.h, x.m) [] OTHER -> AcceptReady(cf, d, x.s, x.h, x.m)
Wrong == <<"wrong", 0>>
\* what the message makes p do
Take(x) ==
  LET d0 == nd[x.p]
      d1 == Accept(d0, x)
      o  == ReadyOptions(cf, d1)
      d2 == IF d1.readyVal = <<>> /\ o # {} THEN [d1 EXCEPT !.readyVal = CHOOSE y \in o : TRUE] ELSE d1
      w  == DeliverOptions(cf, enc, d2)
      d3 == IF d2.out = "none" /\ w # {} THEN [d2 EXCEPT !.out = CHOOSE y \in w : TRUE] ELSE d2
      echo  == IF d0.prop = "none" /\ d1.prop # "none" THEN {[t |-> "E", s |-> x.p, p |-> q, h |-> d1.prop, m |-> enc[d1.prop][q]] : q \in Honest} ELSE {}
      ready == IF d1.readyVal = <<>> /\ d2.readyVal # <<>> THEN {[t |-> "R", s |-> x.p, p |-> q, h |-> d2.readyVal[1], m |-> d2.readyVal[2]] : q \in Honest} ELSE {}
  IN /\ nd' = [nd EXCEPT ![x.p] = d3]
     /\ net' = (net \ {x}) \cup echo \cup ready
     /\ hist' = Append(hist, [t |-> x.t, s |-> x.s, p |-> x.p, h |-> x.h, ok |-> x.m # Wrong])
\* one member may get everything last
Ripe == LET e == {x \in net : x.p # mode.late} IN IF e # {} THEN e ELSE net
Some(S) == {RandomElement(S)}
Lie == \E p \in Some(Honest) : \E s \in Some(Bad) : \E v \in Some(Values) : \E k \in Some(1..10) :
         LET t == IF ~mode.ph /\ nd[p].prop = "none" /\ k <= 6 THEN "P" ELSE IF k % 2 = 0 THEN "E" ELSE "R"
             own == IF t = "E" THEN p ELSE s IN
         Take([t |-> t, s |-> (IF t = "P" THEN N-1 ELSE s), p |-> p, h |-> v, m |-> (IF t = "P" THEN <<>> ELSE IF k > 8 THEN Wrong ELSE enc[v][own])])
Stop == net = {} /\ Len(hist) > 3 * N
Next == /\ ~over /\ UNCHANGED mode
        /\ \E c \in Some(1..10) :
             IF Stop /\ c <= 5
             THEN /\ over' = TRUE /\ UNCHANGED <<nd, net, hist>>
                  /\ PrintT("PLAN|" \o ToJson([ph |-> mode.ph, hist |-> hist, out |-> [p \in 1..(N-F) |-> nd[p-1].out],
                                               rdy |-> [p \in 1..(N-F) |-> IF nd[p-1].readyVal = <<>> THEN "none" ELSE nd[p-1].readyVal[1]]]))
             ELSE /\ over' = FALSE
                  /\ IF net # {} /\ c <= mode.fair THEN \E x \in Some(Ripe) : Take(x) ELSE Lie
Outs == {nd[p].out : p \in Honest} \ {"none"}
Safe == /\ Cardinality(Outs) <= 1
        /\ mode.ph => Outs \subseteq {"v0"}
        /\ (over /\ (Outs # {} \/ mode.ph)) => \A p \in Honest : nd[p].out # "none"
=============================================================================

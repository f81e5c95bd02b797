-------------------------------- MODULE RBC --------------------------------
(***************************************************************************)
(* One instance of the erasure-coded reliable broadcast (party/RBC.go).    *)
(*                                                                         *)
(* State of one member and the rules of the protocol as pure operators.    *)
(* RBCDesign.tla explores them exhaustively with faulty members,           *)
(* RBCTrace.tla judges recorded executions of the implementation by the    *)
(* very same rules.                                                        *)
(*                                                                         *)
(* A value stands for its (hash, length); enc[v][j] is its j-th shard      *)
(* (j in 0..n-1).  cf = [n, f].                                            *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

RBCInit == [prop |-> "none",   \* the accepted proposal
            echo |-> {},       \* one [s, h, m] per member that sent an Echo
            ready |-> {},      \* one [s, h, m] per member that sent a Ready
            sentE |-> {},      \* recipients of this member's Echo
            readyVal |-> <<>>, \* <<h, m>> once a Ready was sent
            sentR |-> {},      \* recipients of this member's Ready
            out |-> "none"]    \* the delivered value

Echos(nd, h, m) == Cardinality({x \in nd.echo : x.h = h /\ x.m = m})
Readys(nd, h)   == Cardinality({x \in nd.ready : x.h = h})

(* The first proposal counts (from the proposer, if the instance knows it). *)
AcceptPropose(nd, v) == IF nd.prop = "none" THEN [nd EXCEPT !.prop = v] ELSE nd

(* At most one Echo and one Ready per member of the committee count. *)
AcceptEcho(cf, nd, s, h, m) ==
  IF s \notin 0..(cf.n-1) \/ \E x \in nd.echo : x.s = s THEN nd
  ELSE [nd EXCEPT !.echo = @ \cup {[s |-> s, h |-> h, m |-> m]}]
AcceptReady(cf, nd, s, h, m) ==
  IF s \notin 0..(cf.n-1) \/ \E x \in nd.ready : x.s = s THEN nd
  ELSE [nd EXCEPT !.ready = @ \cup {[s |-> s, h |-> h, m |-> m]}]

(* When a Ready for (h, m) is justified: n-f matching Echos, or f+1 matching Echos and f+1 Readys for h. *)
ReadyJust(cf, nd, h, m) ==
  \/ Echos(nd, h, m) >= cf.n - cf.f
  \/ Echos(nd, h, m) >= cf.f + 1 /\ Readys(nd, h) >= cf.f + 1
ReadyOptions(cf, nd) == {<<x.h, x.m>> : x \in {y \in nd.echo : ReadyJust(cf, nd, y.h, y.m)}}

(* When h can be delivered: n-f Readys for h and enough correct shards among them to decode. *)
Deliverable(cf, enc, nd, h) ==
  /\ h \in DOMAIN enc
  /\ Readys(nd, h) >= cf.n - cf.f
  /\ Cardinality({x \in nd.ready : x.h = h /\ x.m = enc[h][x.s]}) >= cf.n - cf.f - 1
DeliverOptions(cf, enc, nd) == {h \in {x.h : x \in nd.ready} : Deliverable(cf, enc, nd, h)}
=============================================================================

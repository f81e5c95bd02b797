------------------------------ MODULE TraceRun ------------------------------
(***************************************************************************)
(* Runs a specification given as a step operator along recorded traces.    *)
(*                                                                         *)
(* Traces  : sequence of [id, ev : Seq(event), ...]                        *)
(* TInit(t): initial specification state for trace t                       *)
(* TStep(t, s, e) = [s |-> next state, bad |-> set of <<property, reason>>]*)
(*   bad is non-empty when event e is not allowed by the specification     *)
(* TCov(t, s): counters describing what trace t exercised (vacuity)        *)
(*                                                                         *)
(* Every violation is printed; the check passes when there is none and     *)
(* every trace was consumed to its end (a DONE line per trace).        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Traces, TInit(_), TStep(_, _, _), TCov(_, _)
VARIABLES tid, pos, st

Init == /\ tid \in DOMAIN Traces
        /\ pos = 0
        /\ st = TInit(Traces[tid])

Report(bad) == \A b \in bad :
  PrintT("VIOL|" \o b[1] \o "|" \o ToString(Traces[tid].id) \o "|" \o ToString(pos + 1) \o "|" \o b[2])

Next == /\ pos < Len(Traces[tid].ev)
        /\ pos' = pos + 1
        /\ UNCHANGED tid
        /\ \E r \in {TStep(Traces[tid], st, Traces[tid].ev[pos + 1])} :
             /\ st' = r.s
             /\ Report(r.bad)
             /\ pos + 1 = Len(Traces[tid].ev) =>
                  PrintT("DONE|" \o ToString(Traces[tid].id) \o "|" \o ToString(TCov(Traces[tid], r.s)))
=============================================================================

------------------------------ MODULE Transport ------------------------------
(***************************************************************************)
(* One direction of one connection, as its users see it (pkg/core): what   *)
(* was handed over, how much of it has been received, from where on the    *)
(* peer broke the framing (0: nowhere) and after how many whole messages   *)
(* the stream ended (-1: it did not).                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences
Fresh == [q |-> <<>>, got |-> 0, brk |-> -1, cut |-> -1]
Hand(l, m) == [l EXCEPT !.q = Append(@, m)]
Break(l) == [l EXCEPT !.brk = IF @ = -1 THEN Len(l.q) ELSE @]
Cut(l, n) == [l EXCEPT !.cut = n]
\* beyond a broken frame messages may be missing, but stay in order
Later(l, m) == {k \in (l.got + 1)..Len(l.q) : l.q[k] = m /\ (k = l.got + 1 \/ (l.brk # -1 /\ l.got >= l.brk))}
CanTake(l, m) == Later(l, m) # {}
Take(l, m) == [l EXCEPT !.got = CHOOSE k \in Later(l, m) : \A j \in Later(l, m) : k <= j]
Has(l, m) == \E k \in DOMAIN l.q : l.q[k] = m
Due(l) == IF l.cut # -1 THEN l.cut ELSE IF l.brk # -1 THEN l.brk ELSE Len(l.q)
Complete(l) == l.got >= Due(l)
=============================================================================

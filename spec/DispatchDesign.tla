--------------------------- MODULE DispatchDesign ---------------------------
(***************************************************************************)
(* The dispatcher of pkg/core with the lookup of its users, step by step:  *)
(* both find, or atomically create, the table of a type and then the       *)
(* bounded channel of an identifier; the dispatcher never waits for a      *)
(* channel but keeps a backlog that a drainer empties.  Users may start    *)
(* before, while or after their messages arrive, and look their channel up *)
(* anew for every message.                                                 *)
(* Refines Transport: per instance first in, first out, nothing lost or    *)
(* doubled - also when other instances are never read.                     *)
(***************************************************************************)
EXTENDS Transport, TLC, FiniteSets
CONSTANTS Arrivals,  \* sequence of instances <<type, id>>, in the order of arrival
          Read,      \* the instances that somebody reads
          Cap,       \* capacity of a channel
          Atomic     \* TRUE: lookup or creation is one step (as in the code)
VARIABLES tables,    \* type -> table number (0: none)
          chanOf,    \* <<table, id>> -> channel number (0: none)
          nt, nc,    \* tables and channels created
          ch,        \* contents of the channels
          back,      \* per channel [waiting, active, hold]: hold is what the drainer has in hand (<<>>: nothing)
          disp,      \* [at, pos, tab, seen]
          rd,        \* per reader [at, tab, chan, seen]
          l          \* Transport state per instance
vars == <<tables, chanOf, nt, nc, ch, back, disp, rd, l>>
Keys == {Arrivals[i] : i \in DOMAIN Arrivals} \cup Read
Types == {k[1] : k \in Keys}  Ids == {k[2] : k \in Keys}
MaxT == 2 * Cardinality(Types)  MaxC == 2 * Cardinality(Keys)
Init == /\ tables = [t \in Types |-> 0] /\ chanOf = [x \in (1..MaxT) \X Ids |-> 0] /\ nt = 0 /\ nc = 0
        /\ ch = [c \in 1..MaxC |-> <<>>] /\ back = [c \in 1..MaxC |-> [waiting |-> <<>>, active |-> FALSE, hold |-> <<>>]]
        /\ disp = [at |-> "type", pos |-> 1, tab |-> 0, seen |-> 0, chan |-> 0]
        /\ rd = [k \in Read |-> [at |-> "off", tab |-> 0, chan |-> 0, seen |-> 0]]
        /\ l = [k \in Keys |-> Fresh]
\* looking up or creating: w is the worker's record, what it works on is given; "seen" holds a failed lookup
LookType(w, t, set(_)) ==
  IF tables[t] # 0 THEN set([w EXCEPT !.tab = tables[t], !.at = "id"]) /\ UNCHANGED <<tables, nt>>
  ELSE IF Atomic \/ w.seen = 1
       THEN /\ nt < MaxT /\ tables' = [tables EXCEPT ![t] = nt + 1] /\ nt' = nt + 1
            /\ set([w EXCEPT !.tab = nt + 1, !.at = "id", !.seen = 0])
       ELSE set([w EXCEPT !.seen = 1]) /\ UNCHANGED <<tables, nt>>
\* (without atomicity the second step creates whatever has happened since)
LookTypeLate(w, t, set(_)) ==
  /\ ~Atomic /\ w.seen = 1 /\ tables[t] # 0 /\ nt < MaxT
  /\ tables' = [tables EXCEPT ![t] = nt + 1] /\ nt' = nt + 1 /\ set([w EXCEPT !.tab = nt + 1, !.at = "id", !.seen = 0])
LookId(w, i, set(_), next) ==
  LET x == <<w.tab, i>> IN
  IF chanOf[x] # 0 THEN set([w EXCEPT !.chan = chanOf[x], !.at = next]) /\ UNCHANGED <<chanOf, nc>>
  ELSE /\ nc < MaxC /\ chanOf' = [chanOf EXCEPT ![x] = nc + 1] /\ nc' = nc + 1 /\ set([w EXCEPT !.chan = nc + 1, !.at = next])
Key == Arrivals[disp.pos]
SetD(w) == disp' = w
DType == /\ disp.pos <= Len(Arrivals) /\ disp.at = "type"
         /\ (LookType(disp, Key[1], SetD) \/ LookTypeLate(disp, Key[1], SetD))
         /\ l' = IF disp.seen = 0 THEN [l EXCEPT ![Key] = Hand(@, disp.pos)] ELSE l
         /\ UNCHANGED <<chanOf, nc, ch, back, rd>>
DId == /\ disp.at = "id" /\ LookId(disp, Key[2], SetD, "push") /\ UNCHANGED <<tables, nt, ch, back, rd, l>>
DPush == /\ disp.at = "push"
         /\ LET c == disp.chan IN
            IF ~back[c].active /\ Len(ch[c]) < Cap THEN ch' = [ch EXCEPT ![c] = Append(@, disp.pos)] /\ UNCHANGED back
            ELSE back' = [back EXCEPT ![c].active = TRUE, ![c].waiting = Append(@, disp.pos)] /\ UNCHANGED ch
         /\ disp' = [disp EXCEPT !.at = "type", !.pos = @ + 1]
         /\ UNCHANGED <<tables, chanOf, nt, nc, rd, l>>
DrainTake(c) == /\ back[c].active /\ back[c].hold = <<>>
                /\ back' = IF back[c].waiting = <<>> THEN [back EXCEPT ![c].active = FALSE]
                           ELSE [back EXCEPT ![c].hold = <<Head(back[c].waiting)>>, ![c].waiting = Tail(@)]
                /\ UNCHANGED <<tables, chanOf, nt, nc, ch, disp, rd, l>>
DrainPut(c) == /\ back[c].hold # <<>> /\ Len(ch[c]) < Cap
               /\ ch' = [ch EXCEPT ![c] = @ \o back[c].hold] /\ back' = [back EXCEPT ![c].hold = <<>>]
               /\ UNCHANGED <<tables, chanOf, nt, nc, disp, rd, l>>
RStart(k) == /\ rd[k].at = "off" /\ rd' = [rd EXCEPT ![k].at = "type"] /\ UNCHANGED <<tables, chanOf, nt, nc, ch, back, disp, l>>
RType(k) == /\ rd[k].at = "type"
            /\ LET Set(w) == rd' = [rd EXCEPT ![k] = w] IN LookType(rd[k], k[1], Set) \/ LookTypeLate(rd[k], k[1], Set)
            /\ UNCHANGED <<chanOf, nc, ch, back, disp, l>>
RId(k) == /\ rd[k].at = "id" /\ LET Set(w) == rd' = [rd EXCEPT ![k] = w] IN LookId(rd[k], k[2], Set, "take")
          /\ UNCHANGED <<tables, nt, ch, back, disp, l>>
RTake(k) == /\ rd[k].at = "take" /\ ch[rd[k].chan] # <<>>
            /\ LET m == Head(ch[rd[k].chan]) IN
                 l' = [l EXCEPT ![k] = IF CanTake(@, m) THEN Take(@, m) ELSE [@ EXCEPT !.got = -1]]
            /\ ch' = [ch EXCEPT ![rd[k].chan] = Tail(@)]
            \* looks up anew, or keeps the channel
            /\ \E a \in {"type", "take"} : rd' = [rd EXCEPT ![k].at = a]
            /\ UNCHANGED <<tables, chanOf, nt, nc, back, disp>>
Next == DType \/ DId \/ DPush \/ (\E c \in 1..MaxC : DrainTake(c) \/ DrainPut(c)) \/ \E k \in Read : RStart(k) \/ RType(k) \/ RId(k) \/ RTake(k)
Spec == Init /\ [][Next]_vars
Intact == \A k \in Keys : l[k].got # -1
\* when nothing but reading can happen and all readers wait, everything is read
Stuck == /\ disp.pos > Len(Arrivals)
         /\ \A c \in 1..MaxC : ~back[c].active \/ (back[c].hold # <<>> /\ Len(ch[c]) = Cap)
         /\ \A k \in Read : rd[k].at = "take" /\ ch[rd[k].chan] = <<>>
Delivered == Stuck => \A k \in Read : Complete(l[k])
NeverBlocked == disp.pos <= Len(Arrivals) => ENABLED (DType \/ DId \/ DPush)
=============================================================================

--------------------------- MODULE TransportDesign ---------------------------
(***************************************************************************)
(* The framing of pkg/core over byte streams that arrive in any pieces and *)
(* end anywhere: senders write a header (the length, two digits to base 2) *)
(* and the body; the reader collects the header, then the body, from       *)
(* whatever a read returns, and hands the message on.  Each connection has *)
(* its own reader; all of them feed one bounded channel.  The first        *)
(* connection may be a peer that writes any bytes; what is read from it    *)
(* beyond them is its own affair.                                          *)
(* Refines Transport: per connection, what is received is a prefix of what *)
(* was handed over, and all of it unless the stream was cut or broken.     *)
(***************************************************************************)
EXTENDS Transport, TLC, FiniteSets
CONSTANTS Msgs,    \* Msgs[c]: sequence of message lengths of connection c
          Cap,     \* capacity of the receive channel
          Wild     \* connections that may write anything instead of a frame
VARIABLES l,       \* Transport state per connection
          wr,      \* bytes in flight per connection
          open,    \* the sender has not closed
          rd,      \* reader: [hdr, need, body, st], st in {"hdr", "body", "push", "dead"}
          chan, out
vars == <<l, wr, open, rd, chan, out>>
Conns == DOMAIN Msgs
Bytes(c, k) == LET n == Msgs[c][k] IN <<n \div 2, n % 2>> \o [i \in 1..n |-> 100 * c + 10 * k + i]
Mess(c, k) == [i \in 1..Msgs[c][k] |-> 100 * c + 10 * k + i]
Reader == [hdr |-> <<>>, need |-> 0, body |-> <<>>, st |-> "hdr"]
Init == /\ l = [c \in Conns |-> Fresh] /\ wr = [c \in Conns |-> <<>>] /\ open = [c \in Conns |-> TRUE]
        /\ rd = [c \in Conns |-> Reader] /\ chan = <<>> /\ out = <<>>
Write(c) == /\ open[c] /\ Len(l[c].q) < Len(Msgs[c])
            /\ LET k == Len(l[c].q) + 1 IN
                 /\ l' = [l EXCEPT ![c] = Hand(@, Mess(c, k))]
                 /\ wr' = [wr EXCEPT ![c] = @ \o Bytes(c, k)]
            /\ UNCHANGED <<open, rd, chan, out>>
\* a body of the announced length that is no message
Junk(c) == /\ open[c] /\ c \in Wild /\ l[c].brk = -1
           /\ \E n \in 1..3 : \E m \in 0..n :
                /\ wr' = [wr EXCEPT ![c] = @ \o <<n \div 2, n % 2>> \o [i \in 1..m |-> 999]]
                /\ l' = [l EXCEPT ![c] = Break(@)]
           /\ UNCHANGED <<open, rd, chan, out>>
\* the connection ends: the bytes still in flight may be lost from some point on
Close(c) == /\ open[c]
            /\ \E n \in 0..Len(wr[c]) :
                 /\ wr' = [wr EXCEPT ![c] = SubSeq(@, 1, n)]
                 /\ l' = IF n = Len(wr[c]) \/ l[c].brk # -1 THEN (IF l[c].brk # -1 /\ n < Len(wr[c]) THEN [l EXCEPT ![c] = Cut(@, l[c].got)] ELSE l)
                         ELSE \* whole messages among the bytes that were not lost
                              LET total(k) == Len(Bytes(c, k))
                                  lost == Len(wr[c]) - n
                                  RECURSIVE Keep(_, _)
                                  Keep(k, x) == IF x <= 0 THEN k ELSE Keep(k - 1, x - total(k))
                              IN [l EXCEPT ![c] = Cut(@, Keep(Len(l[c].q), lost))]
            /\ open' = [open EXCEPT ![c] = FALSE]
            /\ UNCHANGED <<rd, chan, out>>
\* one read returns any number of the bytes there are, at most what was asked for
Read(c) == /\ wr[c] # <<>> /\ rd[c].st \in {"hdr", "body"}
           /\ LET r == rd[c]  want == IF r.st = "hdr" THEN 2 - Len(r.hdr) ELSE r.need - Len(r.body) IN
              /\ want > 0
              /\ \E n \in 1..(IF want < Len(wr[c]) THEN want ELSE Len(wr[c])) :
                   /\ rd' = [rd EXCEPT ![c] = IF r.st = "hdr" THEN [@ EXCEPT !.hdr = @ \o SubSeq(wr[c], 1, n)] ELSE [@ EXCEPT !.body = @ \o SubSeq(wr[c], 1, n)]]
                   /\ wr' = [wr EXCEPT ![c] = SubSeq(@, n + 1, Len(@))]
           /\ UNCHANGED <<l, open, chan, out>>
Parse(c) == /\ UNCHANGED <<l, wr, open, chan, out>>
            /\ \/ rd[c].st = "hdr" /\ Len(rd[c].hdr) = 2 /\ rd' = [rd EXCEPT ![c].st = "body", ![c].need = 2 * (rd[c].hdr[1] % 2) + (rd[c].hdr[2] % 2)]
               \/ rd[c].st = "body" /\ Len(rd[c].body) = rd[c].need
                  /\ rd' = [rd EXCEPT ![c].st = IF 999 \in {rd[c].body[i] : i \in DOMAIN rd[c].body} THEN "dead" ELSE "push"]
Push(c) == /\ rd[c].st = "push" /\ Len(chan) < Cap
           /\ chan' = Append(chan, <<c, rd[c].body>>) /\ rd' = [rd EXCEPT ![c] = Reader]
           /\ UNCHANGED <<l, wr, open, out>>
Consume == /\ chan # <<>> /\ out' = Head(chan) /\ chan' = Tail(chan)
           /\ l' = [l EXCEPT ![Head(chan)[1]] = IF CanTake(@, Head(chan)[2]) THEN Take(@, Head(chan)[2]) ELSE IF @.brk # -1 THEN @ ELSE [@ EXCEPT !.got = -1]]
           /\ UNCHANGED <<wr, open, rd>>
Next == Consume \/ \E c \in Conns : Write(c) \/ Junk(c) \/ Close(c) \/ Read(c) \/ Parse(c) \/ Push(c)
Spec == Init /\ [][Next]_vars
Intact == \A c \in Conns : l[c].got # -1
\* nothing more can happen without a sender: everything due has been received
Idle == chan = <<>> /\ \A c \in Conns : /\ rd[c].st # "push"
                                       /\ \/ rd[c].st = "dead"
                                          \/ (wr[c] = <<>> /\ ~(rd[c].st = "hdr" /\ Len(rd[c].hdr) = 2) /\ ~(rd[c].st = "body" /\ Len(rd[c].body) = rd[c].need))
Delivered == Idle => \A c \in Conns : Complete(l[c])
=============================================================================

------------------------------ MODULE MVBAPlan ------------------------------
(***************************************************************************)
(* Random behaviours of MVBADesign's first round under a faulty leader,    *)
(* written down as plans for the implementation (tlc -simulate).           *)
(***************************************************************************)
EXTENDS MVBADesign, Json
VARIABLE hist
PInit == Init /\ led = N - 1 /\ own = [p \in Honest |-> "a"] /\ hist = <<>>
New(k) == h'[k] \ h[k]
Entry(k) == LET x == CHOOSE y \in New(k) : TRUE IN [k |-> k, p |-> x[1], x |-> IF k = "ack" THEN ToString(x[4]) ELSE x[3], v |-> x[Len(x)]]
PNext == /\ ph < 5 /\ Step
         /\ hist' = IF h' = h THEN hist ELSE
                    Append(hist, CASE New("ack") # {} -> Entry("ack") [] New("pv") # {} -> Entry("pv") [] OTHER -> Entry("vt"))
         /\ ph' = 5 => PrintT("PLAN|" \o ToJson([hist |-> hist', lock |-> Facts(cf, h', led, 0).lock, final |-> Facts(cf, h', led, 0).final, unlock |-> Facts(cf, h', led, 0).unlock]))
PSpec == PInit /\ [][PNext]_<<h, fs, led, rd, ph, at, own, hist>>
=============================================================================

----------------------------- MODULE MVBATrace -----------------------------
(***************************************************************************)
(* Judges recorded agreements by the rules of MVBA.tla.                    *)
(*                                                                         *)
(* Every act of an honest member must be allowed by what it has received   *)
(* so far (its own evidence, which is what the implementation can know),   *)
(* and, once the leaders are known, the acts of all of them together must  *)
(* satisfy the rules over the whole history.                               *)
(***************************************************************************)
EXTENDS MVBA, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos, st

Range(q) == {q[i] : i \in DOMAIN q}
CF(t) == [f |-> t.f, bad |-> Range(t.bad)]
Honest(t) == (0..(t.n-1)) \ Range(t.bad)
Q(t) == 2 * t.f + 1
TInit(t) == [h |-> HInit,
             val |-> {}, fin |-> {}, don |-> {}, pvn |-> {}, pvy |-> {}, vts |-> {}, fc |-> {},
             rel |-> {}, sfin |-> {}, led |-> {}, locks |-> {}, certs |-> {}, evid |-> {}, out |-> {}, lock |-> {},
             cov |-> [recv |-> 0, rounds |-> 0, acks |-> 0, prevoteyes |-> 0, prevoteno |-> 0, voteyes |-> 0, voteno |-> 0, adopted |-> 0, laterrounds |-> 0, refused |-> 0, outputs |-> 0]]
B(cond, p, r) == IF cond THEN {<<p, r>>} ELSE {}
R(s, bad) == [s |-> s, bad |-> bad]
Bump(s, k, c) == IF c THEN [s EXCEPT !.cov[k] = @ + 1] ELSE s

\* one broadcast alone accepts everything
Alone(t) == "sender" \in DOMAIN t
Acceptable(t, e) == IF Alone(t) THEN TRUE ELSE e.pred /\ (e.un >= e.r \/ e.lr >= 0)
\* certificates shown by a message, wherever it comes from: <<kind, r, j, v>>
Shown(t, e) ==
  CASE e.t = "Value" /\ e.s = 2 /\ e.ok -> {<<"lock", e.r, e.j, e.v>>}
    [] e.t = "Finish" /\ e.ok -> {<<"final", e.r, e.from, e.v>>}
    [] e.t \in {"PreVote", "Vote"} /\ e.yes -> {<<"lock", e.r, j, e.v>> : j \in Range(e.js)}
    [] e.t = "Vote" /\ ~e.yes /\ e.ok -> {<<"nolock", e.r, 0, "">>}
    [] e.t = "Halt" -> {<<"final", e.r, j, e.v>> : j \in Range(e.js)}
    [] OTHER -> {}
Unlocks(e) == IF e.t = "Value" /\ e.s = 1 THEN {<<"unlock", e.r - k, 0, "">> : k \in 1..e.un} \cup (IF e.lr >= 0 THEN {<<"lock", e.lr, e.lj, e.v>>} ELSE {}) ELSE {}
See(t, s, e) == [s EXCEPT !.certs = @ \cup Shown(t, e) \cup Unlocks(e)]

Recv(t, s0, e) ==
  LET s == See(t, s0, e)  q == e.from  in == q \in 0..(t.n-1) IN
  CASE e.t = "Value" /\ e.j = q /\ e.r >= 0 /\ (IF e.s = 1 THEN Acceptable(t, e) ELSE e.ok) ->
         [s EXCEPT !.val = @ \cup {<<e.p, e.r, e.j, e.s, e.v>>},
                   !.locks = IF e.s = 1 /\ e.lr >= 0 /\ e.un < e.r THEN @ \cup {<<e.p, e.r, e.j, e.v, e.lr, e.lj>>} ELSE @]
    [] e.t = "Finish" /\ e.ok -> [s EXCEPT !.fin = @ \cup {<<e.p, e.r, q>>}, !.evid = @ \cup {<<e.p, e.r, q, e.v>>}]
    [] e.t = "Done" /\ e.share -> [s EXCEPT !.don = @ \cup {<<e.p, e.r, q>>}]
    [] e.t = "PreVote" /\ ~e.yes /\ e.share /\ in -> [s EXCEPT !.pvn = @ \cup {<<e.p, e.r, q>>}]
    [] e.t = "PreVote" /\ e.yes /\ e.js # <<>> -> [s EXCEPT !.pvy = @ \cup {<<e.p, e.r, e.v>>}]
    [] e.t = "Vote" /\ e.yes /\ e.js # <<>> /\ e.share /\ in -> [s EXCEPT !.vts = @ \cup {<<e.p, e.r, q, "yes", e.v, e.js[1]>>}]
    [] e.t = "Vote" /\ ~e.yes /\ e.ok /\ e.share /\ in -> [s EXCEPT !.vts = @ \cup {<<e.p, e.r, q, "no", "", 0>>}]
    [] e.t = "Halt" /\ e.js # <<>> -> [s EXCEPT !.evid = @ \cup {<<e.p, e.r, j, e.v>> : j \in Range(e.js)}]
    [] OTHER -> [s EXCEPT !.cov.refused = @ + 1]

Cnt(S, p, r) == Cardinality({x[3] : x \in {y \in S : y[1] = p /\ y[2] = r}})
Elected(t, s, e) == Cnt(s.don, e.p, e.r) >= Q(t)
Own(e) == e.from = e.p /\ e.r >= 0
\* an act is judged once, when it is sent to the first recipient; sending something else to another is another act
Act(t, s, e) ==
  LET h == s.h IN
  CASE e.t = "Value" /\ e.s = 1 ->
        LET k == <<e.p, e.r, e.v>> IN
        IF k \in h.prop THEN R(s, {})
        ELSE R(Bump([s EXCEPT !.cov.adopted = IF e.r > 0 /\ e.lr >= 0 THEN @ + 1 ELSE @, !.h.prop = @ \cup {k}, !.locks = IF e.lr >= 0 /\ e.un < e.r THEN @ \cup {<<e.p, e.r, e.j, e.v, e.lr, e.lj>>} ELSE @], "laterrounds", e.r > 0),
               B(e.j # e.p, "C12", "a member proposes in the place of another")
               \cup B(~Single(h.prop, k, 2), "C12", "a member proposes two values in a round")
               \cup B(e.r > 0 /\ ~Acceptable(t, [e EXCEPT !.pred = TRUE]), "C11", "a member's proposal in a later round is not justified")
               \cup B((e.r = 0 \/ Alone(t)) /\ e.v # t.inputs[e.p + 1], "C11", "a member does not propose its own value")
               \cup B(e.r > 0 /\ ~Alone(t) /\ Cnt(s.vts, e.p, e.r - 1) < Q(t), "C10", "a member starts a round without the votes of the last one"))
    [] e.t = "Value" /\ e.s = 2 ->
        R(s, B(e.j # e.p, "C12", "a member proposes in the place of another")
             \cup B(~e.ok, "C12", "a member starts the second stage without a certificate of the first")
             \cup B(<<e.p, e.r, e.v>> \notin h.prop, "C12", "a member changes its value between the stages"))
    [] e.t = "Echo" ->
        LET k == <<e.p, e.r, e.j, e.s, e.v>> IN
        IF k \in h.ack THEN R(s, B(e.to # e.j, "C12", "an acknowledgement is not sent to the sender"))
        ELSE R(Bump([s EXCEPT !.h.ack = @ \cup {k}], "acks", TRUE),
               B(~e.share, "C12", "an acknowledgement is not this member's share for a proposed value")
               \cup B(e.share /\ k \notin s.val, "C12", "a member acknowledges what it has not received from the sender, or what is not acceptable")
               \cup B(~Single(h.ack, k, 4), "C12", "a member acknowledges two values of a sender in a stage")
               \cup B(e.to # e.j, "C12", "an acknowledgement is not sent to the sender"))
    [] e.t = "Finish" -> R([s EXCEPT !.sfin = @ \cup {<<e.p, e.r>>}], B(~e.ok, "C12", "a member announces the end of its broadcast without a certificate")
                              \cup B(e.ok /\ <<e.p, e.r, e.v>> \notin h.prop, "C12", "a certificate for a value its sender did not propose"))
    [] e.t = "Done" ->
        IF <<e.p, e.r>> \in s.rel THEN R(s, B(~e.share, "C13", "a wrong coin share is sent"))
        ELSE R([s EXCEPT !.rel = @ \cup {<<e.p, e.r>>}],
               B(~e.share, "C13", "a wrong coin share is sent")
               \cup B(Cnt(s.fin, e.p, e.r) < Q(t) /\ Cnt(s.don, e.p, e.r) < t.f + 1, "C13", "a member reveals its coin share too early"))
    [] e.t = "PreVote" ->
        LET k == <<e.p, e.r, IF e.yes THEN "yes" ELSE "no", e.v>> IN
        IF k \in h.pv THEN R(s, {})
        ELSE R(Bump([s EXCEPT !.h.pv = @ \cup {k}, !.led = @ \cup {<<e.r, e.p, j>> : j \in Range(e.js)}], IF e.yes THEN "prevoteyes" ELSE "prevoteno", TRUE),
               B(~Single(h.pv, k, 2), "C10", "a member pre-votes twice")
               \cup B(~Elected(t, s, e), "C13", "a member knows the leader before the coin is complete")
               \cup B(e.yes /\ e.js = <<>>, "C10", "a Yes pre-vote without a lock")
               \cup B(~e.yes /\ ~e.share, "C10", "a No pre-vote without the member's share"))
    [] e.t = "Vote" ->
        LET k == <<e.p, e.r, IF e.yes THEN "yes" ELSE "no", e.v>> IN
        IF k \in h.vt THEN R(s, {})
        ELSE R(Bump([s EXCEPT !.h.vt = @ \cup {k}, !.led = @ \cup {<<e.r, e.p, j>> : j \in Range(e.js)}], IF e.yes THEN "voteyes" ELSE "voteno", TRUE),
               B(~Single(h.vt, k, 2), "C10", "a member votes twice")
               \cup B(~Elected(t, s, e), "C13", "a member knows the leader before the coin is complete")
               \cup B(e.yes /\ e.js = <<>>, "C10", "a Yes vote without a lock")
               \cup B(~e.share, "C10", "a vote without the member's share")
               \cup B(e.yes /\ <<e.p, e.r, e.v>> \notin s.pvy /\ ~\E j \in Range(e.js) : <<e.p, e.r, j, 2, e.v>> \in s.val, "C10", "a Yes vote for a value nobody showed to be locked")
               \cup B(~e.yes /\ ~e.ok, "C10", "a No vote without a certificate")
               \cup B(~e.yes /\ Cnt(s.pvn, e.p, e.r) < Q(t), "C10", "a No vote without enough No pre-votes"))
    [] e.t = "Halt" ->
        R([s EXCEPT !.led = @ \cup {<<e.r, e.p, j>> : j \in Range(e.js)}],
          B(e.js = <<>>, "C10", "a decision is announced without a certificate")
          \cup B(~Elected(t, s, e), "C13", "a member knows the leader before the coin is complete"))
    [] OTHER -> R(s, B(TRUE, "C12", "unknown message sent"))
Send(t, s, e) == IF ~Own(e) THEN R(s, {<<"C12", "a message not sent as itself or for an unknown instance">>})
                 ELSE LET x == Act(t, See(t, s, e), e) IN
                      [x EXCEPT !.s.cov.rounds = IF e.r + 1 > @ THEN e.r + 1 ELSE @]

\* what the votes prove to p
VoteEvid(t, s, p) == {x \in {<<p, y[2], y[6], y[5]>> : y \in {z \in s.vts : z[1] = p /\ z[4] = "yes"}} :
                        Cardinality({y[3] : y \in {z \in s.vts : z[1] = p /\ z[2] = x[2] /\ z[4] = "yes" /\ z[5] = x[4]}}) >= Q(t)}
Out(t, s, e) ==
  R([s EXCEPT !.out = @ \cup {<<e.p, e.v>>}, !.cov.outputs = @ + 1],
    B(\E x \in s.out : x[1] = e.p, "C11", "a member decides twice")
    \cup B(\E x \in s.out : x[2] # e.v, "C10", "two members decide different values")
    \cup B(~e.pred, "C11", "a value that does not satisfy the predicate is decided")
    \cup B(t.bad = <<>> /\ e.v \notin Range(t.inputs), "C11", "a value nobody proposed is decided")
    \cup B(~\E x \in s.evid \cup VoteEvid(t, s, e.p) : x[1] = e.p /\ x[4] = e.v, "C10", "a value without a certificate is decided"))

\* ---------------------------------------------------------------- the whole history
Final4(t, s) ==
  LET cf == CF(t)  h == s.h  H == Honest(t)
      rs == {x[1] : x \in s.led}
      LD(r) == {x[3] : x \in {y \in s.led : y[1] = r}}
      split == {r \in rs : Cardinality(LD(r)) > 1}
      known == rs \ split
      led == [r \in 0..40 |-> IF r \in known THEN CHOOSE j \in LD(r) : TRUE ELSE 1000]
      top == CHOOSE m \in 0..40 : m \notin known /\ \A k \in 0..(m-1) : k \in known
      fs == TLCEval([k \in 1..top |-> Facts(cf, h, led[k-1], k-1)])
      \* a certificate is genuine when enough honest members stand behind it
      genuine(c) == CASE c[1] = "lock" -> Lock(cf, h, c[2], c[3], c[4])
                      [] c[1] = "final" -> Backed(cf, Acked(h, c[2], c[3], 2, c[4]) \cup Voted(h, c[2], "yes", c[4]))
                      [] c[1] = "nolock" -> NoLock(cf, h, c[2])
                      [] c[1] = "unlock" -> Unlock(cf, h, c[2])
      outs == {x[1] : x \in s.out}
  IN R(s,
    UNION {
      B(split # {}, "C13", "members elect different leaders in a round"),
      B(\E c \in s.certs : c[2] < 40 /\ ~genuine(c), "C12", "a certificate without a quorum of members behind it"),
      B(\E p \in H, r \in known : Denies(h, led[r], p, r), "C10", "a member denies the lock it acknowledged"),
      B(\E x \in s.locks : x[1] \in H /\ x[5] \in known /\ x[6] # led[x[5]] /\
          ((<<x[1], x[2], x[3], 1, x[4]>> \in h.ack /\ ~\E y \in s.locks : y[1] = x[1] /\ y[2] = x[2] /\ y[3] = x[3] /\ y[4] = x[4] /\ y[6] = led[x[5]])), "C10", "a value locked by somebody who was not the leader is accepted in a later round"),
      B(\E x \in h.prop : x[2] \in 1..39 /\ x[2] <= top /\ ~Just(fs, x[2], x[3]), "C10", "a value is proposed in a later round that could not be proposed"),
      B(\E x \in h.ack : x[2] \in 1..39 /\ x[4] = 1 /\ x[2] <= top /\ ~Just(fs, x[2], x[5]), "C10", "a value is acknowledged in a later round that could not be proposed"),
      B(\E x \in s.evid : x[2] \in known /\ x[3] # led[x[2]] /\ \E o \in s.out : o[1] = x[1] /\ o[2] = x[4] /\
          ~\E y \in s.evid \cup VoteEvid(t, s, o[1]) : y[1] = o[1] /\ y[4] = o[2] /\ (y[2] \notin known \/ y[3] = led[y[2]]), "C10", "a value is decided that was not finished by the leader"),
      \* no other decision must be possible any more
      B(\E r \in known : \E v, w \in {x[5] : x \in h.ack} \cup {x[4] : x \in h.vt} : v # w /\ Final(cf, h, led[r], r, led[r], v) /\ Final(cf, h, led[r], r, led[r], w), "C10", "two values can be decided in a round"),
      B(\E r \in known : \E o \in s.out : \E v \in {x[5] : x \in h.ack} \cup {x[4] : x \in h.vt} : v # o[2] /\ Final(cf, h, led[r], r, led[r], v), "C10", "another value than the decided one can be decided, too"),
      B(H \ outs # {}, "C11", "an honest member does not decide"),
      B(t.bad # <<>> /\ H \ outs # {}, "C24", "faulty members keep an honest one from deciding")})

TStep(t, s, e) ==
  CASE e.ev = "recv" -> R([Recv(t, s, e) EXCEPT !.cov.recv = @ + 1], {})
    [] e.ev = "send" -> Send(t, s, e)
    [] e.ev = "out" -> Out(t, s, e)
    [] e.ev = "endless" -> R(s, {<<"C11", "no decision after very many rounds">>})
    [] e.ev = "quiet" -> Final4(t, s)
    [] e.ev = "crash" -> R(s, {<<"C11", "a member crashed">>, <<"C24", "a member crashed">>})
    [] e.ev = "hang" -> R(s, {<<"C11", "a member spins or blocks">>, <<"C24", "a member spins or blocks">>})
    \* one provable broadcast
    [] e.ev = "sent" -> R([s EXCEPT !.out = @ \cup {<<1000, e.v>>}],
                          B(~(e.ok /\ e.valid /\ e.v = t.inputs[1]), "C12", "the sender does not get a valid certificate for its value"))
    [] e.ev = "spbquiet" -> LET cf == CF(t)  good == t.sender \notin cf.bad IN
         R(s, B(good /\ 1000 \notin {x[1] : x \in s.out}, "C12", "an honest sender does not get its certificate")
              \cup B(good /\ t.bad # <<>> /\ 1000 \notin {x[1] : x \in s.out}, "C24", "faulty members keep an honest sender from its certificate")
              \cup B(good /\ Honest(t) \ {x[1] : x \in s.out} # {}, "C12", "a member does not lock the honest sender's value")
              \cup B(\E x \in s.lock : <<x[1], t.round, t.sender, 2, x[2]>> \notin s.h.ack, "C12", "a member locks what it did not acknowledge")
              \cup B(\E c \in s.certs : ~(IF c[1] = "lock" THEN Lock(cf, s.h, c[2], c[3], c[4]) ELSE Backed(cf, Acked(s.h, c[2], c[3], 2, c[4]))), "C12", "a certificate without a quorum of members behind it"))
    [] e.ev = "lock" -> R([s EXCEPT !.out = @ \cup {<<e.p, e.v>>}, !.lock = IF e.ok THEN @ \cup {<<e.p, e.v>>} ELSE @],
                          B(e.ok /\ ~e.valid, "C12", "a member holds an invalid lock")
                          \cup B(t.sender \notin Range(t.bad) /\ ~(e.ok /\ e.v = t.inputs[1]), "C12", "a member does not lock the honest sender's value"))
TCov(t, s) == s.cov
INSTANCE TraceRun
=============================================================================

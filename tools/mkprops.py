#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that ids, files and anchors stay consistent)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            observe_at=list(observe), hook_needed=hook)))

party = "internal/party/"
PD = party + "ProactivizeAndShareDist.go"
prop("C01", "The shared secret survives dealing and any number of handoffs",
 "After an honest dealing and any number of committee handoffs, any f+1 full shares and any 2f+1 reduced shares held by honest members of the current committee reconstruct exactly the secret that was dealt. This holds with up to f faulty members in every committee and for every message order, and every honest member finishes every handoff.",
 ["schedules", "inputs", "configurations", "fault_sequences"],
 "every secret, committee size n=3f+1, delivery order, set of at most f silent or misbehaving members per committee, and chain of handoffs (also to the same committee)",
 "The tests run one all-honest handoff on one loopback schedule, only log the recovered secret and never hand off twice.",
 [party+"client.go", party+"VSS.go", party+"ShareReduce.go", PD],
 [("dealing", party+"client.go:Share"), ("reduction", party+"ShareReduce.go"), ("refresh and redistribution", PD)],
 [("fullShare", "B(i,y), the member's row", party+"party.go"), ("reducedShare", "B(x,i), the member's column", party+"party.go")],
 ["fullShare and reducedShare of every honest member after each handoff", "return of each protocol call"])
prop("C02", "All shares lie on one polynomial that matches the public commitments",
 "When a dealing or a handoff completes, the shares of all honest members are evaluations of one common polynomial of degree f in one variable and 2f in the other. The commitments and witnesses every member holds, and every share, commitment and proof it sent, are exactly those of that polynomial.",
 ["schedules", "inputs", "configurations", "fault_sequences"],
 "every run: dealings and handoffs, any delivery order, committee size and up to f faulty members; also members whose index is above 2f+1",
 "No test compares shares of different members, checks degrees, or checks what is stored for the next handoff.",
 [party+"client.go", party+"VSS.go", party+"ShareReduce.go", PD, party+"party_utils.go"],
 [("share verification", party+"VSS.go:VerifyVSSSendReceived"), ("new commitments", PD), ("interpolation in the exponent", party+"party_utils.go:InterpolateComOrWit")],
 [("Proof, witness, witnessIndexes", "what is kept for the next handoff", party+"party.go")],
 ["VSSSend, Prepare, ShareReduce, Commit, Reshare, Recover, NewCommit, ShareDist messages", "final shares"])
prop("C03", "A handoff really refreshes the shares, identically for everyone",
 "In every handoff all honest members of the new committee add the same agreed set of at least f+1 distinct certified contributions, each a fresh random sharing of zero. The new sharing therefore differs from the old one by exactly the sum of these contributions: same secret, and old shares are useless afterwards.",
 ["schedules", "inputs", "fault_sequences"],
 "every schedule (in particular contributions that arrive late or only after agreement), every subset of faulty members, every set that agreement can output",
 "The tests cannot see a refresh that silently adds nothing, adds different sets at different members, or depends on timing.",
 [PD, party+"main_process.go"],
 [("contribution", PD+" Commit/Reshare"), ("certificates", PD+" Recover"), ("agreement on the set", party+"main_process.go:MainProcess"), ("summation", PD+" Refresh")],
 [("Q", "recovered contributions", PD)],
 ["Commit, Reshare, NewCommit, ShareDist messages", "reducedShare before and after"])
prop("C04", "No member learns more than its own shares",
 "Every dealing and every contribution uses fresh, independent, full-degree random polynomials, and every private value put in a message depends only on the recipient's own row or column. So what any f members of each committee see is consistent with every possible secret.",
 ["inputs", "histories", "configurations"],
 "every dealing and handoff, every recipient, every pair of runs, every committee size",
 "Secrecy is a statement about all coalitions and about the distribution of what they see; the tests only look at the values of the intended owner.",
 [party+"client.go", party+"ShareReduce.go", PD, "internal/polyring/polyring.go"],
 [("dealer randomness", party+"client.go:Share"), ("contribution randomness", PD), ("random polynomials", "internal/polyring/polyring.go:NewRandPoly")],
 [], ["all messages sent by honest parties to every recipient"])
prop("C05", "A member adopts a dealt share if and only if the dealing verifies",
 "A member that receives a well-formed dealing whose public part is consistent and whose private values match it adopts exactly those values. If any value, commitment, proof, position or public element is altered, mixed between recipients or missing, it adopts nothing and its earlier state is unchanged.",
 ["inputs", "fault_sequences", "configurations"],
 "every single or combined alteration of any element of a dealing, every recipient, every committee size",
 "The only dealer in the tests is honest and no alteration is ever delivered.",
 [party+"VSS.go", party+"party_utils.go"],
 [("verification", party+"VSS.go:VerifyVSSSendReceived"), ("decoding", party+"party_utils.go:SetFromVSSMessage")],
 [("fullShare, Proof, witness", "adopted state", party+"party.go")], ["state after VSSShareReceive"])
prop("C06", "Handing over tolerates f faulty old members",
 "A new member takes over the public commitments and its reduced share from the old committee correctly and always finishes once the honest old members have sent their messages. Up to f old members cannot make it accept other commitments or another share, block it, or count more than once each.",
 ["schedules", "inputs", "fault_sequences", "configurations"],
 "every order of the old members' messages, every set of up to f faulty old members sending wrong, duplicated, malformed or no messages, every committee size",
 "The tests only deliver correct messages from all old members.",
 [party+"ShareReduce.go", party+"party_utils.go"],
 [("commitment majority", party+"ShareReduce.go:PrepareReceive"), ("verified interpolation", party+"ShareReduce.go:ShareReduceReceive"), ("sending", party+"ShareReduce.go:ShareReduceSend")],
 [("reducedShare", "column taken over", party+"party.go")], ["Prepare and ShareReduce messages", "reducedShare and commitments afterwards"])
prop("C07", "Only verified contributions and redistributed shares are used",
 "An honest member vouches for, recovers and adds a refresh contribution only if its public part verifies as a sharing of zero and every private value it received for it verifies. A redistributed share or commitment that does not match is never used, and honest contributions are never rejected.",
 ["inputs", "schedules", "fault_sequences"],
 "every alteration of any element of a contribution, of relayed points, of new commitments and of redistributed shares by up to f members, any order",
 "No test has a member that contributes or relays wrong values.",
 [PD], [("verify commitment", PD+" Verify"), ("verify values before voting", PD+" Vote"), ("verify relayed points", PD+" Recover"), ("verify new commitments and shares", PD+" ShareDist")],
 [("flgCom", "contribution verified", PD)], ["Recover, NewCommit, ShareDist messages of honest members", "final shares"])
prop("C08", "Reliable broadcast never delivers different or forged messages",
 "In one broadcast instance no two honest members deliver different messages. If the proposer is honest, nothing but its proposal is ever delivered.",
 ["schedules", "inputs", "fault_sequences", "configurations"],
 "every interleaving, every behaviour of up to f members (equivocation, forged echoes and readies, wrong or malformed shards, duplicates), every payload length and committee size",
 "The tests use an honest proposer, honest members and do not compare the delivered messages.",
 [party+"RBC.go"],
 [("echo quorum", party+"RBC.go"), ("ready amplification", party+"RBC.go"), ("erasure decoding with hash check", party+"RBC.go")],
 [("EchoMessageMap, T", "echo and ready counters", party+"RBC.go")], ["RBCEcho and RBCReady messages", "return value of RBCReceive"])
prop("C09", "Reliable broadcast delivers to all or to none",
 "If the proposer is honest, every honest member delivers its proposal. If any honest member delivers, every honest member delivers, also those the proposer never reached and whatever up to f members send.",
 ["schedules", "inputs", "fault_sequences", "configurations"],
 "every fair interleaving, every behaviour of up to f members, every payload length and committee size",
 "The tests have no faulty member except one proposer that skips one recipient on one schedule.",
 [party+"RBC.go"],
 [("ready after f+1 readies and f+1 echoes", party+"RBC.go"), ("decoding with more shards", party+"RBC.go")],
 [], ["delivery at quiescence"])
prop("C10", "Agreement: all honest members decide the same value",
 "In one agreement instance no two honest members output different values, in whatever rounds they decide.",
 ["schedules", "inputs", "fault_sequences"],
 "every interleaving and every behaviour of up to f members over several rounds, including duplicated, replayed, withheld and conflicting messages and values proposed in later rounds",
 "The agreement protocol has no test of its own; the end-to-end test runs it once, with everyone honest and one round.",
 [party+"main_process.go", party+"message_handler.go", party+"pb.go", party+"spb.go"],
 [("locks and votes", party+"message_handler.go"), ("proposal check in later rounds", party+"main_process.go:proposalChecker"), ("halting", party+"main_process.go:MainProcess")],
 [("Lr, Fr", "locks and finished broadcasts", party+"main_process.go")], ["PreVote, Vote, Halt messages", "return value of MainProcess"])
prop("C11", "Agreement terminates with an acceptable value",
 "If all honest members take part, every honest member outputs a value, and the value satisfies the acceptance predicate and, if everyone is honest, was proposed by a member. No schedule and no behaviour of up to f members can block it.",
 ["schedules", "inputs", "fault_sequences"],
 "every fair interleaving, including rounds that end without a decision, and every behaviour of up to f members",
 "Only one all-honest single-round run is ever executed.",
 [party+"main_process.go", party+"message_handler.go", party+"pb.go", party+"spb.go"],
 [("vote outcomes yes / no / mixed", party+"message_handler.go"), ("relaying Halt", party+"message_handler.go"), ("next round", party+"main_process.go:MainProcess")],
 [], ["return value of MainProcess at quiescence"])
prop("C12", "A broadcast certificate proves that a quorum acknowledged that value",
 "A certificate for a value in a broadcast stage exists only if 2f+1 distinct members acknowledged exactly that value, an honest member acknowledges at most one value per sender and stage, and the second stage only after a valid first-stage certificate. An honest sender always obtains its certificate.",
 ["schedules", "inputs", "fault_sequences"],
 "every interleaving and every behaviour of sender and receivers: equivocation, replays, duplicates, forged or foreign acknowledgements",
 "No test exercises the provable broadcast, and none with a faulty sender or receiver.",
 [party+"pb.go", party+"spb.go"],
 [("collect distinct shares", party+"pb.go:Sender"), ("acknowledge once", party+"pb.go:Receiver"), ("stage-two check", party+"spb.go:validator")],
 [], ["Value, Echo and Finish messages"])
prop("C13", "All honest members elect the same, unpredictable leader",
 "In each round every honest member that learns a leader learns the same one, a valid member determined by the committee's joint coin. No honest member reveals its coin share before 2f+1 broadcasts are known to be finished or an honest member has already revealed its own.",
 ["schedules", "inputs", "fault_sequences"],
 "every order, duplication and forgery of coin shares and finish messages by up to f members, every round",
 "The tests never compare leaders and never send a wrong or duplicated coin share.",
 [party+"message_handler.go", party+"main_process.go", party+"keygen.go"],
 [("finish quorum", party+"message_handler.go"), ("coin", party+"message_handler.go"), ("release", party+"main_process.go:election")],
 [], ["Finish, Done, PreVote, Vote and Halt messages"])
prop("C14", "Transport delivers every message once, intact and in order",
 "Every message handed to a connection is delivered to the destination exactly once, byte-identical and in sending order, for every message size and however the byte stream is fragmented. A peer that disconnects or sends garbage affects no other connection and does not stop the process.",
 ["inputs", "schedules", "fault_sequences"],
 "every sequence of messages and sizes, every fragmentation of the stream, any number of concurrent connections, disconnects and garbage at any point",
 "The transport tests are commented out or send one size and never compare contents.",
 ["pkg/core/send.go", "pkg/core/receive.go", "pkg/utils/utils.go"],
 [("framing", "pkg/core/send.go:MakeSendChannel"), ("reassembly", "pkg/core/receive.go:MakeReceiveChannel"), ("length encoding", "pkg/utils/utils.go")],
 [], ["messages read from the receive channel"])
prop("C15", "Messages reach exactly the protocol instance they are addressed to",
 "Every received message is handed out exactly once, in arrival order, to the instance with its type and identifier, whether that instance starts before or after the message arrives. Sending addresses exactly the stated recipient or committee, and a payload decodes to exactly what was encoded.",
 ["schedules", "inputs", "histories"],
 "every interleaving of arrivals and instance starts, every set of types and identifiers (also empty or prefix-related ones), all payload types and contents, all recipients",
 "The dispatch test is commented out and payload encoding has no test.",
 ["pkg/core/dispatche.go", "pkg/core/message_encapsulation.go", party+"party_utils.go", "pkg/utils/utils.go"],
 [("dispatch by type and id", "pkg/core/dispatche.go"), ("lookup", party+"party_utils.go:GetMessage"), ("addressing", party+"party_utils.go:Send/Broadcast/ToNext"), ("payloads", "pkg/core/message_encapsulation.go")],
 [("dispatchChannels", "queues by type and id", party+"party.go")], ["GetMessage channels", "outgoing channels"])
prop("C16", "Evaluation proofs verify exactly for true evaluations",
 "For every polynomial that fits the setup and every point, the proof of the true value verifies against the commitment, alone or in a batch, and commitment and proof are the group elements defined by the setup. Verification fails for every other value, point, commitment or proof.",
 ["inputs", "configurations"],
 "all polynomials up to the setup's degree (also zero, constant, leading zeros), all points and values including 0 and members of evaluation domains, all alterations, all batch domains",
 "The tests verify a few hand-made polynomials and one altered value.",
 ["internal/polycommit/kzg.go", "internal/polycommit/kzg_single_proofs.go", "internal/polycommit/kzg_multi_proofs.go", "internal/polycommit/poly.go", "internal/polycommit/setup.go"],
 [("commit", "internal/polycommit/kzg.go:CommitToPoly"), ("prove", "internal/polycommit/kzg_single_proofs.go:ComputeProofSingle"), ("verify", "internal/polycommit/kzg_single_proofs.go:CheckProofSingle"), ("batch", "internal/polycommit/kzg_multi_proofs.go")],
 [], ["returned points and verdicts"])
prop("C17", "Interpolation and evaluation are exact",
 "Interpolating any set of points with distinct positions gives the unique polynomial of the stated degree through them, and interpolating commitments or witnesses gives the group element of the interpolated polynomial at the target. Evaluation agrees with the coefficients at every point, in coefficient and in evaluation form. Padding denotes the same polynomial and samples stand at their positions.",
 ["inputs", "configurations"],
 "all degrees, distinct positions in any order (not only 1..d+1), all targets (known, unknown, zero), all values",
 "The tests use a handful of fixed positions and degrees.",
 ["internal/polyring/interpolation.go", "internal/polyring/polyring.go", party+"party_utils.go", "internal/bls/globals.go"],
 [("Lagrange interpolation", "internal/polyring/interpolation.go"), ("coefficients", party+"party_utils.go:GetLagrangeCoefficients"), ("in the exponent", party+"party_utils.go:InterpolateComOrWit*"), ("evaluation", "internal/bls/globals.go")],
 [], ["returned polynomials, coefficients and points"])
prop("C18", "Fourier transforms and domain extension are exact inverses",
 "The forward transform maps coefficients to the evaluations on the domain and the inverse transform undoes it, for scalars and for group elements and every power-of-two size up to the table; other sizes are rejected. Data extension returns the odd half for which the extended data has the same low degree, and bit-reversal ordering is the exact self-inverse permutation.",
 ["inputs", "configurations"],
 "all sizes and strides, all contents (zero, sparse, shorter than the domain), in-place and out-of-place variants, both directions",
 "The tests check round trips and a few fixed vectors, which an error that cancels in the round trip survives.",
 ["internal/polycommit/fft.go", "internal/polycommit/fft_fr.go", "internal/polycommit/fft_g1.go", "internal/polycommit/das_extension.go", "internal/polycommit/reverse_bit_order.go"],
 [("scalar transform", "internal/polycommit/fft_fr.go"), ("group transform", "internal/polycommit/fft_g1.go"), ("extension", "internal/polycommit/das_extension.go"), ("bit reversal", "internal/polycommit/reverse_bit_order.go")],
 [], ["returned vectors"])
prop("C19", "Erasure recovery returns the original data or an error, never wrong data",
 "From any samples containing at least half of an extended data vector, recovery returns exactly the original; with fewer samples, or samples that fit no low-degree data, it reports an error where it detects one and never panics. The vanishing polynomial used for this is exactly zero on the missing positions, non-zero elsewhere and monic of the right degree.",
 ["inputs", "configurations"],
 "every pattern of missing positions (none, half, scattered, contiguous, all in one half), all sizes, all data, samples at positions with value zero",
 "The tests try random patterns at a few ratios.",
 ["internal/polycommit/recover_from_samples.go", "internal/polycommit/legacy_recovery.go", "internal/polycommit/zero_poly.go"],
 [("recovery", "internal/polycommit/recover_from_samples.go"), ("legacy recovery", "internal/polycommit/legacy_recovery.go"), ("zero polynomial", "internal/polycommit/zero_poly.go")],
 [], ["recovered vectors and errors"])
prop("C20", "Amortised proofs equal the individually computed proofs",
 "The proofs produced for all positions at once, for single points and for cosets, in natural or bit-reversed order and with or without data-availability extension, are exactly the proofs computed one by one. Each verifies for its own position and value.",
 ["inputs", "configurations"],
 "all polynomials and sizes up to the setup, all chunk lengths, all positions, all variants",
 "The tests check one polynomial and size per variant and mostly only that proofs verify.",
 ["internal/polycommit/fk20_single.go", "internal/polycommit/fk20_multi.go", "internal/polycommit/kzg_multi_proofs.go"],
 [("single", "internal/polycommit/fk20_single.go"), ("multi", "internal/polycommit/fk20_multi.go")],
 [], ["returned proofs"])
prop("C21", "Field and group operations compute exact arithmetic",
 "Every scalar operation (add, subtract, multiply, divide, invert, batch-invert, exponentiate, compare, linear combination) returns the canonical result modulo the group order, and group operations correspond to scalar arithmetic in the exponent, in every arithmetic back end that can be built. Results do not depend on operands aliasing the destination, and operands are not modified.",
 ["inputs", "configurations"],
 "all operands including 0, 1, modulus-1 and non-canonical inputs, all aliasing patterns, vector lengths, every back end",
 "The tests check a few constants and one backend.",
 ["internal/bls/bignum_kilic.go", "internal/bls/bignum_pure.go", "internal/bls/bignum_hol256.go", "internal/bls/bignum_hbls.go", "internal/bls/bls_kilic.go", "internal/bls/globals.go", "internal/bls/bignum_all.go"],
 [("scalars", "internal/bls/bignum_*.go"), ("group", "internal/bls/bls_kilic.go"), ("tables", "internal/bls/globals.go")],
 [], ["results of sequences of operations"])
prop("C22", "Encoding of scalars, points and integers is canonical and loss-free",
 "Decoding an encoded scalar, group element or integer returns the same element, equal elements have equal encodings, and every non-canonical, off-curve, wrong-subgroup or wrong-length input is rejected without changing the destination. Textual forms denote the same value.",
 ["inputs"],
 "all scalars and points (zero, infinity, both signs), all single-bit and boundary alterations of encodings, all lengths",
 "The tests check a few valid encodings and boundary scalars.",
 ["internal/bls/bignum_all.go", "internal/bls/bignum_kilic.go", "internal/bls/bls_all.go", "internal/bls/bls_kilic.go", "pkg/utils/utils.go"],
 [("scalar range check", "internal/bls/bignum_all.go:ValidFr"), ("point codec", "internal/bls/bls_kilic.go"), ("integers", "pkg/utils/utils.go")],
 [], ["bytes and verdicts"])
prop("C23", "Threshold key material is consistent and survives storage",
 "Generated key shares lie on one polynomial of the requested threshold whose commitments are the public key, and fewer than the threshold of shares do not determine it. Keys rebuilt from stored coefficients are the same on every load, for every member, and the two committees' keys are independent.",
 ["inputs", "configurations", "histories"],
 "all committee sizes and thresholds, repeated generation, storage and loading in any order",
 "The test only prints generated values.",
 [party+"keygen.go"],
 [("generation", party+"keygen.go:SigKeyGen"), ("storage", party+"keygen.go:GenCoefficientsFile"), ("loading", party+"keygen.go:SigKeyGenFix*")],
 [], ["shares, public polynomial, signatures made with them"])
prop("C24", "No message from a faulty peer can crash or block an honest member",
 "Whatever bytes up to f peers send in any protocol step - malformed, truncated, oversized or empty payloads, invalid points, foreign signatures, unknown senders and positions, duplicates - an honest member neither terminates abnormally nor gets stuck while the other members behave correctly.",
 ["inputs", "fault_sequences", "schedules"],
 "every message type at every step of every protocol, every malformation, any timing",
 "The tests never deliver a malformed message.",
 [party+"RBC.go", party+"VSS.go", party+"ShareReduce.go", PD, party+"message_handler.go", party+"pb.go", "pkg/core/receive.go"],
 [("decoding guards", party+"party_utils.go:decodeG1"), ("sender and index guards", party+"party_utils.go:oncePerSender"), ("invalid proposals", party+"pb.go:Receiver")],
 [], ["process liveness, completion of the protocol"])

prop("C25", "The deployed program carries a secret through a whole epoch",
 "After one run has generated the key files, processes started in the program's roles with their address lists - the client, the old and the new committee, or a single committee in both parts - deal the client's secret, hand it over, refresh and redistribute it, for any committee size n = 3f+1 up to the length of the lists, in whatever order the processes start to work, however their connections delay messages, and whatever up to f connected processes of each committee do (stop, fall silent, send damaged messages). Every correct process reaches the end of its part, stays up, signs with its share of its committee's key (threshold 2f+1, from the key file) and leaves its report with a non-negative duration for every step; what the correct processes send each other, and the shares that result, are those of a correct dealing and handoff of that secret.",
 ["inputs", "schedules", "crash_points"],
 "any order of starting, any delays, any point at which a process stops",
 "No test runs the program; the tests only call the packages, in one process, with the committees wired up by hand.",
 ["cmd/DyCAPs/main.go", party+"client.go", party+"keygen.go", party+"party.go", "pkg/core/send.go", "pkg/core/receive.go"],
 [("roles and their steps", "cmd/DyCAPs/main.go:main"), ("address lists", "cmd/DyCAPs/main.go:ReadIpList"), ("key files", party+"keygen.go:GenCoefficientsFile")],
 [("pripoly coefficients", "key files of both committees", party+"keygen.go")], ["files and messages of real processes"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))

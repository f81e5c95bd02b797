#!/usr/bin/env python3
"""Writes known_findings.json.  'known' entries are genuine defects left unrepaired;
'fixed' entries record the repairs made in /repo and suppress nothing."""
import json, os
F = []
def fixed(props, commit, what):
    for p in props.split():
        F.append("fixed: property=%s %s %s" % (p, commit, what))
fixed("C08 C09", "7e36698", "RBC counted an Echo several times per member and indexed its tables by an unchecked sender, so one faulty member could make up an Echo quorum or crash the others")
fixed("C08 C09", "45b828d", "RBC sent a Ready for a hash other than the one f+1 members were ready for, and more than once, so honest members could deliver different messages or none")
fixed("C09 C24", "596430e", "RBC reconstruction used the first shards it had: one wrong shard from a faulty member made it spin for ever or deliver nothing")
fixed("C24", "5516a4f", "an empty proposal crashed every member that received it")
fixed("C08", "2ec05f4", "a handoff RBC instance accepted a proposal from any member in the name of another one")
fixed("C05", "01909e0", "a dealing whose g^s does not match the committed g^F(j) was accepted")
fixed("C05 C24", "ea14336", "a malformed dealing crashed the receiver")
fixed("C06 C24", "112a9b5", "a malformed ShareReduce or Prepare message crashed the receiver")
fixed("C06", "409d69d", "one faulty old member could outvote the others by repeating its Prepare or ShareReduce message")
fixed("C07", "71d9711", "only the last evaluation of a Reshare message had to verify; the others were used unverified")
fixed("C03 C11", "2fd3f9c", "f+1 signature shares were combined into an invalid signature, so the agreed contributions were not certified")
fixed("C01 C03", "9d485a9", "Refresh skipped contributions it had not yet recovered, so members ended up with shares of different polynomials")
fixed("C24 C01", "0d6ad3f", "repeated Recover messages, or ones for an index out of range, blocked or crashed the receiver")
fixed("C24 C07", "4dbd1df", "repeated Reshare, ShareDist or Success messages used up the handlers of other members; senders out of range crashed the receiver")
fixed("C24", "8dae799", "a malformed Commit, Reshare, Recover, NewCommit or ShareDist message crashed the receiver")
fixed("C01 C02", "6d92f96", "concurrent ShareDist handlers raced on the set of received points, so a member could interpolate garbage or never finish")
fixed("C01 C02", "78c89d2", "after a handoff a committee kept the commitments and witnesses of the old sharing, so it could not hand off again")
fixed("C07 C03", "b6820af", "a Recover message was accepted with a signature share that was not its sender's")
fixed("C13 C12 C10", "19bc570", "MVBA quorums counted repeated messages and borrowed signature shares of the same member several times")
fixed("C13 C24", "d06c46e", "repeated Finish messages of one member counted towards the 2f+1 finished broadcasts; senders out of range crashed the receiver")
fixed("C11", "4be0071", "MVBA got stuck after 2f+1 votes in some orders, and 2f+1 No votes produced an invalid unlock certificate or a crash")
fixed("C24", "8e9b93b", "an invalid proposal in a provable broadcast terminated the process of its receiver")
fixed("C12", "511b008", "a provable broadcast accepted a value from members other than its sender")
fixed("C11", "6b7dde1", "a member that halted did not relay the Halt message, so the others could wait for ever")
fixed("C11", "bd48b34", "a member that had finished locally withheld the coin share the others were waiting for")
fixed("C10", "57c1a41", "in later MVBA rounds any value could be proposed, so members deciding in different rounds could decide different values")
fixed("C03 C11", "b10d4a2", "MVBA could decide a set with fewer than f+1 or uncertified contributions proposed by a faulty member")
fixed("C14 C24", "7f61a46", "a peer that disconnected or sent garbage terminated the whole process")
fixed("C21", "6ade379", "AsFr of the herumi back end wrapped integers of 2^63 and more to negative numbers")
fixed("C22 C21", "3e9318a", "FrTo32 of the hol256 and pure back ends crashed on scalars below 2^248 or misplaced their bytes")
fixed("C22", "7e52f75", "the herumi back end accepted several different encodings of the point at infinity")
fixed("C18", "bcd84b1", "DASFFTExtension returned wrong data unless the extended data was as wide as the table of roots")
fixed("C18", "4c7070b", "bit reversal of a length that is not a power of two permuted wrongly instead of being rejected")
fixed("C18 C21", "638e8d4", "zero counted as a power of two: empty in-place transforms divided by zero")
fixed("C16", "7289ee1", "committing to a proof of a polynomial shorter than the divisor (e.g. the empty one) crashed")
fixed("C16", "8b1cfab", "ComputeProofMulti divided by X^n instead of X^n - x^n: its proofs do not verify")
fixed("C20", "83e1291", "FK20 crashed for a single coefficient and for a single chunk")
fixed("C20", "8e4cf5b", "FK20Multi crashed for chunks longer than one coefficient")
fixed("C19", "228c7c7", "the vanishing polynomial of no positions was zero: recovery crashed when nothing was missing")
fixed("C19", "5ac3c35", "recovery crashed with fewer than half of the samples and for impossible lengths")
fixed("C19", "644560f", "ErasureCodeRecover crashed when few or no samples were missing")
fixed("C17 C21", "fbab782", "EvaluatePolyInEvaluationForm returned 0 at the points of the domain")
fixed("C01 C03", "ec15957", "a certificate for a contribution could be replayed in a later handoff of the same committee, where nobody holds that contribution: the honest members waited for ever")
fixed("C10", "dfe6440", "a member that had acknowledged the leader's value in the second stage could vote No: its acknowledgement together with f Yes votes proved the value while the round was unlocked, and members decided different values (counterexample of MVBADesign replayed into the code)")
fixed("C15 C24", "07cd73c", "a faulty peer could send more messages for one instance than its queue holds; the dispatcher then blocked and no instance received anything any more")
fixed("C05 C24", "0bfd03c", "a member took the first dealing it received, whoever sent it: one faulty member could make it miss the dealer's or adopt another secret")
fixed("C14 C24", "543709c", "an accept that failed, as when peers hold so many connections that the process may open no other, ended the process")
fixed("C16 C21", "3fc5baf", "a KZG opening of a true value was rejected for about one of 100000 inputs: the pairing of the pinned kilic/bls12-381 overflows (mul014 adds up to four unreduced field elements)")
fixed("C11 C07", "2df7cb9", "a valid signature share or threshold signature was rejected for about one of 100000 inputs for the same reason: with f members silent a proposer could remain without certificate and MVBA without decision")
K = [dict(id="K1", property="C04", match="^f members of the old and one of the new committee at another position together compute the secret$",
  what="a coalition of f old members and one new member at another position of the next committee computes the secret: Reshare gives every new member its row of every contribution, so it knows its row of the old sharing, too (history: any honest handoff; rows 1..f of the old members, row f+1 = new full share minus the rows of the agreed contributions)")]
json.dump({"known": K, "fixed": F}, open(os.path.join(os.path.dirname(__file__), "..", "known_findings.json"), "w"), indent=1)

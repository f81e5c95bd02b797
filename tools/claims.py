NA = {}
T["C08"] = ("TLA+ specification of the broadcast, checked by TLC; recorded executions of the real members judged by it (trace validation)",
  BASE + "messages claim their true sender. Safety is decided for every recorded execution, for the schedules and faulty members generated.")
T["C09"] = ("TLA+ specification of the broadcast, checked by TLC; recorded executions judged by it, obligations at quiescence",
  BASE + "messages claim their true sender and are eventually delivered. Liveness is decided as obligations once nothing is in flight.")

HO = ("TLA+ specification of the shared polynomial through dealings and handoffs, checked by TLC; whole dealings and chains of handoffs by the real members (faulty members' messages altered, replayed, withheld) recorded and judged by it",
  BASE + "messages claim their true sender and are eventually delivered. Schedules, faults and inputs are generated; every recorded history is decided completely.")
for _p in ("C01", "C02", "C03", "C07"):
    T[_p] = HO
T["C04"] = ("TLA+ model of what coalitions see, decided by TLC by linear algebra over a small field; recorded dealings, handing over and handoffs judged by the trace specifications (every private value is the recipient's; fresh full-degree randomness, also across runs)",
  BASE + "secrecy is information-theoretic about private values (commitments hide under the usual assumptions); the quality of the system's random source itself is only observed through the values drawn.")
T["C05"] = ("TLA+ specification of dealing (every commitment, proof and value as an exponent), checked by TLC; dealings of the real client and of forging dealers replayed into the real members and judged by it",
  BASE + "the dealer's messages claim its identity; forged dealings are generated in exponents, including with the setup's secret.")
T["C06"] = ("TLA+ specification of handing over, checked by TLC; executions of real old and new members with faulty old members judged by it",
  BASE + "messages claim their true sender and are eventually delivered.")
T["C21"] = ("TLA+ register machine over all four back ends, every instruction and aliasing form enumerated by TLC; recorded results judged by TLC against arithmetic modulo the order",
  BASE + "values sampled (with emphasis on limb and range boundaries); group elements checked through their coordinates or the pairing-free exponent where the dealer knows it.")
T["C22"] = ("TLA+ definition of the encodings; recorded encodings, decodings and mutated inputs of every back end judged by TLC",
  BASE + "values and byte strings sampled, with emphasis on the bounds of the range check and on mutated encodings.")

LIB = BASE + "inputs are generated (all patterns where the space is small, otherwise sampled with emphasis on special values)."
T["C16"] = ("TLA+ definitions of commitment, proof and verdict as exponents; recorded calls of both pairing back ends judged by TLC", LIB)
T["C17"] = ("TLA+ definitions of interpolation and evaluation; recorded calls (polyring, party, bls) judged by TLC", LIB)
T["C18"] = ("TLA+ definitions of transform, extension and bit reversal by evaluation on the domain; recorded calls of all back ends judged by TLC", LIB)
T["C19"] = ("TLA+ definition of recovery and of the vanishing polynomial; recorded calls for every erasure pattern of small sizes and sampled larger ones judged by TLC", LIB)
T["C20"] = ("TLA+ definition of the single proofs; recorded amortised proofs of both pairing back ends compared position by position by TLC", LIB)
T["C23"] = ("TLA+ state machine of the key store; recorded histories of generating, storing and loading judged by TLC", LIB)

AG = BASE + "messages claim their true sender and are eventually delivered; threshold signatures are unforgeable (the specification counts the honest members behind a certificate). "
T["C10"] = ("TLA+ design model of the agreement, all behaviours over several rounds by TLC; behaviours of its rules replayed into the real members and recorded agreements with scripted and rule-driven faulty members judged by it (trace validation)",
  AG + "The model is exhaustive for N=4 and two (thorough: three) rounds; safety on the implementation is decided for every recorded history, including decisions that were possible but not taken.")
T["C11"] = ("TLA+ specification of the agreement; recorded agreements, with faulty members and adverse schedules, judged by it: obligations once nothing is in flight",
  AG + "Liveness is decided as obligations at quiescence; rounds are bounded at 30.")
T["C12"] = ("TLA+ specification of the provable broadcast inside that of the agreement; recorded broadcasts and agreements judged by it: every certificate seen must have its quorum of honest acknowledgements",
  AG)
T["C13"] = ("TLA+ specification of the election inside that of the agreement, and of many elections together; recorded agreements (also the same keys and instances under different schedules) judged by both",
  AG + "Unpredictability is decided through what the leader depends on and when shares are revealed.")

T["C14"] = ("TLA+ specification of a link as a queue, and a design model of framing, fragmentation, garbage and disconnects checked by TLC; recorded traffic over real sockets through a fragmenting, merging and cutting relay judged by it (trace validation)",
  "Trusts TLC, the Go toolchain and the loopback network. Message sizes, fragmentations and disconnects are generated; every recorded history is decided completely.")

T["C15"] = ("TLA+ design model of the dispatcher and its users, every interleaving by TLC; recorded arrivals, sending calls (in memory and over real sockets) and payload encodings judged by the specification (trace validation)",
  "Trusts TLC, the Go toolchain and the loopback network. Instances, contents and schedules are generated (real threads race in the harness); every recorded history is decided completely.")
T["C24"] = ("TLA+ specifications of every protocol, of the transport and of the dispatcher, whose liveness obligations and absence of abnormal ends are judged by TLC on recorded executions of the real members under hostile traffic (malformed, truncated, oversized, repeated, misaddressed and flooding messages); TLC also checks the dispatcher's design for every interleaving",
  BASE + "messages claim their true sender or an unknown one. What faulty members send is generated by rules and by random damage; liveness is decided as obligations once nothing is in flight.")

T["C25"] = ("TLA+ specification of dealing and handoff with the phases of the processes; whole epochs of real processes of the program, recorded by relays on every connection, judged by it (trace validation)",
  "Trusts TLC, the Go toolchain and the loopback network; messages claim their true sender. Start order, delays, crash points and damage are generated; what members hold is judged through what they send. A process that was never reachable is outside (dialling is a precondition).")

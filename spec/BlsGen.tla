------------------------------- MODULE BlsGen -------------------------------
(* All instruction forms of the register machine: every operation with every way its registers can coincide. *)
EXTENDS Naturals, TLC, Json, Sequences, FiniteSets
F == 0..2
G == 0..2
H == 0..1
V == 0..1
I(op, d, a, b) == [op |-> op, d |-> d, a |-> a, b |-> b]
Bin(op, S) == {I(op, d, a, b) : d \in S, a \in S, b \in S}
Un(op, S) == {I(op, d, a, 0) : d \in S, a \in S}
Scalar == Bin("AddModFr", F) \cup Bin("SubModFr", F) \cup Bin("MulModFr", F) \cup Bin("DivModFr", F)
  \cup Un("InvModFr", F) \cup Un("CopyFr", F) \cup Un("ExpModFr", F)
  \cup {I("EqualFr", 0, a, b) : a \in F, b \in F}
  \cup UNION {{I(op, 0, a, 0) : a \in F} : op \in {"EqualZero", "EqualOne", "FrStr", "String", "FrTo32"}}
  \cup UNION {{I(op, d, 0, 0) : d \in F} : op \in {"AsFr", "SetFr", "FrFrom32", "RandomFr"}}
  \cup {I(op, 0, 0, 0) : op \in {"ValidFr", "ToFr", "IsPowerOfTwo"}}
  \cup {I("BatchInvModFr", 0, a, 0) : a \in V} \cup {I("LinCombFr", 0, a, b) : a \in V, b \in V}
  \cup {I("PolyLinComb", 0, 0, 0)}
  \cup UNION {{I(op, d, a, b) : d \in F, a \in V, b \in F} : op \in {"EvalPolyAt", "EvalPolyAtUnoptimized", "EvaluatePolyInEvaluationForm"}}
Group == Bin("AddG1", G) \cup Bin("SubG1", G) \cup Un("CopyG1", G) \cup {I("MulG1", d, a, b) : d \in G, a \in G, b \in F}
  \cup UNION {{I(op, d, 0, 0) : d \in G} : op \in {"ClearG1", "NegG1", "FromCompressedG1", "UnmarshalTextG1"}}
  \cup UNION {{I(op, 0, a, 0) : a \in G} : op \in {"ToCompressedG1", "MarshalTextG1", "StrG1"}}
  \cup {I("EqualG1", 0, a, b) : a \in G, b \in G}
  \cup Bin("AddG2", H) \cup Bin("SubG2", H) \cup Un("CopyG2", H) \cup {I("MulG2", d, a, b) : d \in H, a \in H, b \in F}
  \cup UNION {{I(op, d, 0, 0) : d \in H} : op \in {"ClearG2", "NegG2", "FromCompressedG2", "UnmarshalTextG2"}}
  \cup UNION {{I(op, 0, a, 0) : a \in H} : op \in {"ToCompressedG2", "MarshalTextG2", "StrG2"}}
  \cup {I("EqualG2", 0, a, b) : a \in H, b \in H}
  \cup {I("LinCombG1", 0, a, 0) : a \in V} \cup {I("PairingsVerify", 0, 0, 0), I("UnmarshalNil", 0, 0, 0)}
ASSUME PrintT("GEN|" \o ToJson([scalar |-> Scalar, group |-> Group]))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================

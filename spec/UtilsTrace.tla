----------------------------- MODULE UtilsTrace -----------------------------
(* Integer encoding (pkg/utils): four bytes, most significant first. *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos, st
TInit(t) == [calls |-> 0]
Bytes(x) == <<x[1] \div 256, x[1] % 256, x[2] \div 256, x[2] % 256>>
Word(b) == <<b[1] * 256 + b[2], b[3] * 256 + b[4]>>
RECURSIVE Strip(_)
Strip(b) == IF b = <<>> \/ b[Len(b)] # 0 THEN b ELSE Strip(SubSeq(b, 1, Len(b)-1))
B(cond, r) == IF cond THEN {<<"C22", r>>} ELSE {}
Judge(e) ==
  CASE e.op \in {"u32enc", "intenc"} -> B(e.r # Bytes(e.x), e.op \o " is not the big-endian encoding")
    [] e.op \in {"u32dec", "intdec"} -> B(e.r # Word(e.x), e.op \o " does not give the encoded integer")
         \cup B(e.op = "intdec" /\ e.neg, e.op \o " does not give the encoded integer") \cup B(e.xa # e.x, e.op \o " modifies its input")
    [] e.op = "delzero" -> B(e.r # Strip(e.x), "DeleteZero does not remove exactly the trailing zeros")
    [] e.op = "dellen" -> B(e.r # SubSeq(e.x, 1, e.n), "DeleteZeroWithLen does not keep exactly the first bytes")
TStep(t, s, e) ==
  CASE e.ev = "call" -> [s |-> [s EXCEPT !.calls = @ + 1], bad |-> Judge(e)]
    [] OTHER -> [s |-> s, bad |-> {<<"C22", "an integer encoding fails">>}]
TCov(t, s) == s
INSTANCE TraceRun
=============================================================================

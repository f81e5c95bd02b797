---- MODULE TransportMC ----
EXTENDS TransportDesign
MsgsV == <<<<1, 0>>, <<0, 3>>>>
MsgsW == <<<<1>>, <<0, 2>>, <<2>>>>
====

---- MODULE DispatchMC ----
EXTENDS DispatchDesign
A == <<"a", "1">>
B == <<"a", "2">>
C == <<"b", "1">>
ArrV == <<A, B, A, C, A, B>>
ReadV == {A, B}
ArrW == <<A, C, B, A, C, A, B, A>>
ReadW == {A, B, C}
====

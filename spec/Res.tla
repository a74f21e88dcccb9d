-------------------------------- MODULE Res --------------------------------
(* What a part of the library may do with memory, descriptors, files, locks and threads,
   whatever it is used for: no use outside a live object is ever reported, and once every
   handle that was initialised has been released nothing is left.                         *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Focus, Verbose
VARIABLES live     \* handles in use
rvars == <<live>>

G(clause, p) == p \/ (Verbose /\ PrintT(<<"CLAUSE", clause>>) /\ FALSE)

RInit == live = {}
Inited(h, r) == live' = IF r = 0 THEN live \cup {h} ELSE live
Freed(h) == live' = live \ {h}
Misuse == G("memory or descriptor misused", FALSE) /\ UNCHANGED rvars
Crash == G("crash", FALSE) /\ UNCHANGED rvars
Left(n) == G("something was left behind", live = {} => n = 0) /\ UNCHANGED rvars
=============================================================================

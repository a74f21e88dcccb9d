------------------------------ MODULE ResTrace ------------------------------
(* Checks recorded runs of single parts, of whatever kind, against Res. *)
EXTENDS Res, Json, IOUtils
VARIABLES t, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[t].ev

Step(e) ==
  CASE e.e = "ret" -> IF e.f = "init" THEN Inited(e.h, e.r) ELSE Freed(e.h)
    [] e.e = "memerr" -> Misuse
    [] e.e = "crash" -> Crash
    [] e.e \in {"end", "exit"} -> Left(e.n)

TInit == t \in 1..Len(Traces) /\ l = 1 /\ RInit
TNext == l <= Len(Ev) /\ Step(Ev[l]) /\ l' = l + 1 /\ t' = t
TSpec == TInit /\ [][TNext]_<<rvars, t, l>>
Report == /\ (l = Len(Ev) + 1 => PrintT(<<"DONE", t>>))
          /\ (Verbose => PrintT(<<"AT", t, l>>))
=============================================================================

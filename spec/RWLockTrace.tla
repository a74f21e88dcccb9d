----------------------------- MODULE RWLockTrace -----------------------------
(* Checks recorded runs of the implementation against RWLock. *)
EXTENDS RWLock, Json, IOUtils
VARIABLES t, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[t].ev

Step(e) ==
  CASE e.e = "call" -> Call(e.t, e.f, e.c, e.a, e.ms)
    [] e.e = "ret" -> Ret(e.t, e.f, e.r, e.ms)
    [] e.e = "Q" -> Quiet(e.ms)
    [] e.e = "fault" -> Fault
    [] e.e \in {"memerr", "crash", "hang", "killed", "exit"} -> Bad(e.e)
    [] e.e = "end" -> Ended(e.heap, e.locks)
    [] OTHER -> UNCHANGED lvars

TInit == t \in 1..Len(Traces) /\ l = 1 /\ LInit
TNext == l <= Len(Ev) /\ Step(Ev[l]) /\ l' = l + 1 /\ t' = t
TSpec == TInit /\ [][TNext]_<<lvars, t, l>>
Report == /\ (l = Len(Ev) + 1 => PrintT(<<"DONE", t>>))
          /\ (Verbose => PrintT(<<"AT", t, l>>))
=============================================================================

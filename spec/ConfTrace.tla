------------------------------ MODULE ConfTrace ------------------------------
(* Checks recorded runs of the implementation against Conf. *)
EXTENDS Conf, Json, IOUtils
VARIABLES t, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[t].ev

Step(e) ==
  CASE e.e = "call" -> Call(e)
    [] e.e = "ret" -> Ret(e.f, e.r)
    [] e.e = "conf" -> Shown(e)
    [] e.e = "lis" -> Listening(e.at)
    [] e.e = "Q" -> Quiet
    [] e.e = "fault" -> Fault
    [] e.e \in {"memerr", "crash", "hang", "killed", "exit"} -> Never(e.e)
    [] e.e = "end" -> Ended(e)
    [] OTHER -> UNCHANGED cvars

TInit == t \in 1..Len(Traces) /\ l = 1 /\ CInit
TNext == l <= Len(Ev) /\ Step(Ev[l]) /\ l' = l + 1 /\ t' = t
TSpec == TInit /\ [][TNext]_<<cvars, t, l>>
Report == /\ (l = Len(Ev) + 1 => PrintT(<<"DONE", t>>))
          /\ (Verbose => PrintT(<<"AT", t, l>>))
=============================================================================

------------------------------ MODULE LogTrace ------------------------------
(* Checks recorded runs of the implementation against Log. *)
EXTENDS Log, Json, IOUtils
VARIABLES t, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[t].ev

Step(e) ==
  CASE e.e = "call" -> Call(e)
    [] e.e = "ret" -> Ret(e.f, e.r)
    [] e.e = "lout" -> Out(e.d, e.p, e.lvl, e.m, e.whole)
    [] e.e = "lfopen" -> FileOpen(e.p, e.m)
    [] e.e = "lfclose" -> FileClose
    [] e.e = "slopen" -> SysOpen
    [] e.e = "slclose" -> SysClose
    [] e.e = "kept" -> Kept(e.ok)
    [] e.e = "Q" -> Quiet
    [] e.e = "fault" -> Fault
    [] e.e \in {"memerr", "crash", "hang", "killed", "exit"} -> Never(e.e)
    [] e.e = "end" -> Ended(e)
    [] OTHER -> UNCHANGED lvars

TInit == t \in 1..Len(Traces) /\ l = 1 /\ LInit
TNext == l <= Len(Ev) /\ Step(Ev[l]) /\ l' = l + 1 /\ t' = t
TSpec == TInit /\ [][TNext]_<<lvars, t, l>>
Report == /\ (l = Len(Ev) + 1 => PrintT(<<"DONE", t>>))
          /\ (Verbose => PrintT(<<"AT", t, l>>))
=============================================================================

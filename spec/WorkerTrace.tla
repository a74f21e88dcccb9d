----------------------------- MODULE WorkerTrace -----------------------------
(* Checks recorded runs of the implementation against Worker. *)
EXTENDS Worker, Json, IOUtils
VARIABLES t, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[t].ev

Step(e) ==
  CASE e.e = "call" -> Call(e.t, e.f, e.ms)
    [] e.e = "ret" -> Ret(e.t, e.f, e.r, e.x, e.ms)
    [] e.e = "begin" -> Begin(e.same = 1, e.ms)
    [] e.e = "done" -> Done(e.ms)
    [] e.e = "Q" -> Quiet(e.ms)
    [] e.e = "fault" -> Fault
    [] e.e \in {"memerr", "crash", "hang", "killed", "exit"} -> Bad(e.e)
    [] e.e = "end" -> Ended(e.heap, e.locks, e.thr)
    [] OTHER -> UNCHANGED wvars

TInit == t \in 1..Len(Traces) /\ l = 1 /\ WInit(Traces[t].period)
TNext == \/ l <= Len(Ev) /\ Step(Ev[l]) /\ l' = l + 1 /\ t' = t
         \/ l <= Len(Ev) /\ Silent /\ UNCHANGED <<t, l>>
         \/ l <= Len(Ev) /\ Ev[l].e # "tick" /\ "ms" \in DOMAIN Ev[l] /\ Pass(Ev[l].ms) /\ UNCHANGED <<t, l>>
TSpec == TInit /\ [][TNext]_<<wvars, t, l>>
Report == /\ (l = Len(Ev) + 1 => PrintT(<<"DONE", t>>))
          /\ (Verbose => PrintT(<<"AT", t, l>>))
=============================================================================

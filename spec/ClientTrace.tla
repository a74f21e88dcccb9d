----------------------------- MODULE ClientTrace -----------------------------
(* Checks recorded runs of the implementation against Client. *)
EXTENDS Client, Json, IOUtils
VARIABLES t, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[t].ev

Step(e) ==
  CASE e.e = "call" -> Call(e)
    [] e.e = "ret" -> Ret(e)
    [] e.e = "pout" -> POut(e.p, e.ip, e.port, e.mode)
    [] e.e = "poutend" -> POutEnd(e.k, e.ok)
    [] e.e = "pin" -> PIn(e.p, e.dig)
    [] e.e = "pend" -> PEnd(e.p, e.how)
    [] e.e = "pwin" -> PWin(e.p, e.n)
    [] e.e = "pgot" -> PGot(e.p, e.x)
    [] e.e = "peof" -> PEof(e.p)
    [] e.e = "pgone" -> PGone(e.p)
    [] e.e = "Q" -> Quiet
    [] e.e = "fault" -> Fault
    [] e.e \in {"memerr", "crash", "hang", "killed", "exit"} -> Never(e.e)
    [] e.e = "end" -> Ended(e)
    [] OTHER -> UNCHANGED kvars

TInit == t \in 1..Len(Traces) /\ l = 1 /\ KInit
TNext == l <= Len(Ev) /\ Step(Ev[l]) /\ l' = l + 1 /\ t' = t
TSpec == TInit /\ [][TNext]_<<kvars, t, l>>
Report == /\ (l = Len(Ev) + 1 => PrintT(<<"DONE", t>>))
          /\ (Verbose => PrintT(<<"AT", t, l>>))
=============================================================================

------------------------------ MODULE ConnTrace ------------------------------
(* Checks recorded runs of the implementation against Conn. *)
EXTENDS Conn, Json, IOUtils
VARIABLES t, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[t].ev

Step(e) ==
  CASE e.e = "call" -> Call(e)
    [] e.e = "ret" -> Ret(e)
    [] e.e = "pcon" -> PCon(e.p, e.port, e.a, e.ok)
    [] e.e = "pout" -> POut(e.p, e.ip, e.port, e.src, e.mode)
    [] e.e = "poutend" -> POutEnd(e.k, e.ok)
    [] e.e = "pin" -> PIn(e.p, e.n)
    [] e.e = "pend" -> PEnd(e.p, e.how)
    [] e.e = "pwin" -> PWin(e.p, e.n)
    [] e.e = "pgot" -> PGot(e.p, e.op, e.pos, e.n)
    [] e.e = "peof" -> PEof(e.p)
    [] e.e = "pgone" -> PGone(e.p)
    [] e.e = "udp" -> DIn(e.s, e.p, e.cid, e.tcid, e.len, e.a)
    [] e.e = "usend" -> DOut(e.s, e.p, e.ip, e.dport, e.cid, e.len, e.err)
    [] e.e = "Q" -> Quiet(e.ms)
    [] e.e = "fault" -> Fault
    [] e.e \in {"memerr", "crash", "hang", "killed", "exit"} -> Never(e.e)
    [] e.e = "end" -> Ended(e)
    [] OTHER -> UNCHANGED cvars

TInit == t \in 1..Len(Traces) /\ l = 1 /\ CInit
TNext == l <= Len(Ev) /\ Step(Ev[l]) /\ l' = l + 1 /\ t' = t
TSpec == TInit /\ [][TNext]_<<cvars, t, l>>
Report == /\ (l = Len(Ev) + 1 => PrintT(<<"DONE", t>>))
          /\ (Verbose => PrintT(<<"AT", t, l>>))
=============================================================================

----------------------------- MODULE DaemonTrace -----------------------------
(* Checks recorded runs of the implementation against Daemon. *)
EXTENDS Daemon, Json, IOUtils
VARIABLES t, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[t].ev

Step(e) ==
  CASE e.e = "lfopen" -> FileOpen(e.p, e.m)
    [] e.e = "slopen" -> SysOpen
    [] e.e = "lout" -> Said(e.d) /\ Severity(e.lvl)
    [] e.e = "lopen" -> Listen(e.port)
    [] e.e = "lclose" -> Unlisten
    [] e.e = "fork" -> Fork(e.parent)
    [] e.e = "sig" -> Signal(e.s)
    [] e.e = "killed" -> Killed
    [] e.e = "exit" -> Exit(e.code, e.fds, e.heap, e.files, e.main)
    [] e.e = "cconn" -> New(e.c, e.ok)
    [] e.e = "cnonce" -> Nonce(e.c)
    [] e.e = "ceof" -> Eof(e.c)
    [] e.e = "cgone" -> Gone(e.c)
    [] e.e = "cend" -> End(e.c)
    [] e.e = "clogin" -> Login(e.c, e.k)
    [] e.e = "cudp" -> Ask
    [] e.e = "usend" -> Send
    [] e.e = "fault" -> IF e.soft = 1 THEN SoftFault ELSE Fault
    [] e.e = "Q" -> Quiet(e.stalled)
    [] e.e = "dend" -> Finally
    [] e.e \in {"memerr", "crash", "hang"} -> Never(e.e)
    [] OTHER -> UNCHANGED dvars

TInit == t \in 1..Len(Traces) /\ l = 1 /\ DInit(Traces[t].args, Traces[t].confs, Traces[t].n)
TNext == l <= Len(Ev) /\ Step(Ev[l]) /\ l' = l + 1 /\ t' = t
TSpec == TInit /\ [][TNext]_<<dvars, t, l>>
Report == /\ (l = Len(Ev) + 1 => PrintT(<<"DONE", t>>))
          /\ (Verbose => PrintT(<<"AT", t, l>>))
=============================================================================

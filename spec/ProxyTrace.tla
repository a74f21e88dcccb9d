----------------------------- MODULE ProxyTrace -----------------------------
(* Checks recorded runs of the implementation against Proxy.  Every line of *)
(* the input is one run; a run is accepted when all its events are steps.   *)
EXTENDS Proxy, Json, IOUtils
VARIABLES t, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[t].ev

\* a few bytes may be read as several pieces of what was sent: the one which is due, if it is among them
Read(e, first, Fits(_, _)) ==
  IF "alt" \in DOMAIN e /\ \E i \in DOMAIN e.alt : Fits(e.alt[i][1], e.alt[i][2])
  THEN LET i == CHOOSE i \in DOMAIN e.alt : Fits(e.alt[i][1], e.alt[i][2]) IN <<e.alt[i][1], e.alt[i][2]>>
  ELSE first
FitsR(k, c, off) == k \in DOMAIN cn /\ c = cn[k].c /\ off = cl[c].ats[cn[k].i].nxt
FitsT(c, k, off) == k \in DOMAIN cn /\ c = cn[k].c /\ cn[k].i = cl[c].ns /\ off = cl[c].ats[cn[k].i].tc

Step(e) ==
  CASE e.e = "call" -> IF e.f = "open" THEN Call(e.f, e.n, [on |-> e.reg = 1, pub |-> e.pub]) ELSE Call(e.f, N, rg)
    [] e.e = "ret" -> Ret(e.f, e.r, e.bad = 1)
    [] e.e = "accend" -> AccEnd
    [] e.e = "pret" -> PRet(e.r)
    [] e.e = "lopen" -> Listen(TRUE)
    [] e.e = "lclose" -> Listen(FALSE)
    [] e.e = "cconn" -> CConn(e.c, e.ok = 1)
    [] e.e = "cnonce" -> CNonce(e.c, e.n, e.ok = 1)
    [] e.e = "clogin" -> CLogin(e.c, e.k, e.call)
    [] e.e = "notice" -> Notice(e.c, e.k)
    [] e.e = "ceof" -> CEof(e.c, e.part)
    [] e.e = "cgone" -> CGone(e.c)
    [] e.e = "cend" -> CEnd(e.c, e.how)
    [] e.e = "cwin" -> CWin(e.c, e.n)
    [] e.e = "ubind" -> UBind(e.s, e.p)
    [] e.e = "uclose" -> UClose(e.s, e.p)
    [] e.e = "cudp" -> CUdp(e.c, e.p, e.ip, e.cid, e.off, e.len, e.u, e.tot)
    [] e.e = "usend" -> USend(e.s, e.p, e.ip, e.dport, e.cid, e.len, e.u, e.off, e.err # 0)
    [] e.e = "udp" -> Udp(e.s, e.p, e.ip, e.tcid, e.len)
    [] e.e = "cmsg" -> CMsg(e.c, e.p, e.ip, e.cid, e.len)
    [] e.e = "copen" -> COpen(e.c, e.ip)
    [] e.e = "cclose" -> CClose(e.c)
    [] e.e = "cdata" -> CData(e.c, e.off, e.len, e.last = 1)
    [] e.e = "cempty" -> UNCHANGED vars
    [] e.e = "cbad" -> CBad(e.c)
    [] e.e = "cgarbage" -> CWild(e.c)
    [] e.e = "tconn" -> TConn(e.k, e.s, e.ip, e.port, e.mode)
    [] e.e = "tconnend" -> TConnEnd(e.k, e.ok = 1)
    [] e.e = "tstat" -> TStat(e.c, e.ok = 1)
    [] e.e = "tdata" -> LET x == Read(e, <<e.k, e.off>>, LAMBDA k, o : FitsT(e.c, k, o)) IN TData(e.c, x[1], x[2], e.len)
    [] e.e = "tclose" -> TClose(e.c)
    [] e.e = "trecv" -> LET x == Read(e, <<e.c, e.off>>, LAMBDA c, o : FitsR(e.k, c, o)) IN TRecv(e.k, x[1], x[2], e.len)
    [] e.e = "teof" -> TEof(e.k)
    [] e.e = "tgone" -> TGone(e.k)
    [] e.e = "rdata" -> RData(e.k, e.off, e.len)
    [] e.e = "rend" -> REnd(e.k, e.how)
    [] e.e = "cbadmsg" -> CBadMsg(e.c)
    [] e.e = "rconn" -> RConn(e.j, e.mode)
    [] e.e = "post" -> Post(e.wf = 1, e.name = 1 /\ e.addr = 1 /\ e.dig = 1 /\ e.port = 1 /\ e.ver = 1, e.status, e.used, e.total, e.pub)
    [] e.e = "postbad" -> PostBad
    [] e.e = "tick" -> Tick(e.ms, e.calm = 1)
    [] e.e = "fault" -> FaultEv(e.k, e.c, e.s)
    [] e.e = "memerr" -> MemErr
    [] e.e \in {"crash", "hang", "sigpipe", "killed", "exit", "fork", "closestd"} -> Dead(e.e)
    [] e.e = "Q" -> Quiet(e.pend, e.acc = 1, {e.stall[i] : i \in DOMAIN e.stall}, {e.rstall[i] : i \in DOMAIN e.rstall},
                          {e.cing[i] : i \in DOMAIN e.cing}, e.rh)
    [] e.e = "end" -> Ended(e.fds, e.heap, e.files, e.lib, e.thr, e.locks)
    [] OTHER -> UNCHANGED vars

TInit == /\ t \in 1..Len(Traces) /\ l = 1
         /\ InitFor(Traces[t].n, [on |-> Traces[t].reg = 1, pub |-> Traces[t].pub])
TNext == /\ l <= Len(Ev) /\ Step(Ev[l]) /\ l' = l + 1 /\ t' = t
TSpec == TInit /\ [][TNext]_<<vars, t, l>>
\* prints every accepted run, and in Verbose mode how far each got
Report == /\ (l = Len(Ev) + 1 => PrintT(<<"DONE", t>>))
          /\ (Verbose => PrintT(<<"AT", t, l>>))
=============================================================================

------------------------------ MODULE ProxyMC ------------------------------
(***************************************************************************)
(* A small proxy in a small world, model checked.                          *)
(*                                                                         *)
(* The world (Env..) is everything clients, remote hosts, the registrar's  *)
(* clock and the user may do, within budgets.  The design (Do..) says when *)
(* a proxy has something to do, in terms of what has happened at its       *)
(* boundary; what it does is the contract's action of that name, enforced  *)
(* with all its clauses.  Checked on every reachable state:                *)
(*  - Allowed: what the design wants to do is what the contract allows, so *)
(*    the contract can be met, in every order of events;                   *)
(*  - Restful: when the design has nothing left to do, the contract's      *)
(*    demands on a proxy at rest hold;                                     *)
(*  - one invariant per property, written without the contract's clauses,  *)
(*    over a history kept apart from the contract's state.                 *)
(***************************************************************************)
EXTENDS Proxy

CONSTANTS Budget,     \* event kind -> how often
          Addresses,  \* number of external addresses
          Reg         \* registration switched on

VARIABLES b, h, lab

mvars == <<vars, b, h, lab>>
View == <<vars, b, h>>

B(k) == IF k \in DOMAIN Budget THEN Budget[k] ELSE 0
Has(k) == k \in DOMAIN b /\ b[k] > 0
Pay(k) == b' = [b EXCEPT ![k] = @ - 1]
Keep == b' = b

\* the history: what was sent and what arrived, per client and connection
H0 == [inn |-> << >>, out |-> << >>, nin |-> << >>, nout |-> << >>, served |-> {}, notices |-> << >>,
       opens |-> << >>, conns |-> << >>, stats |-> << >>, up |-> << >>, tcp |-> << >>, who |-> << >>, down |-> << >>, got |-> << >>, closes |-> << >>]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Add(f, k, x) == (k :> Append(Get(f, k, << >>), x)) @@ f
Same == h' = h

MInit ==
  /\ InitFor(Addresses, [on |-> Reg, pub |-> "N"])
  /\ b = Budget /\ h = H0 /\ lab = << >>

\* ---------------------------------------------------------------- the world
Cs == DOMAIN cl
Open(c) == cl[c].end = "no" /\ ~cl[c].eof
Lab(x) == lab' = x                    \* what the step was (not part of the state)
EnvConnect == /\ Has("conn") /\ api.lop /\ Pay("conn") /\ CConn(Cardinality(Cs) + 1, TRUE) /\ Same
              /\ Lab(<<"conn", Cardinality(Cs) + 1>>)
EnvLogin == \E c \in Cs : \E k \in {"good", "badpw", "badcall"} : \E call \in {"A", "B"} :
  /\ Open(c) /\ cl[c].st = "nonced" /\ cl[c].login = "none" /\ (k # "good" => Has("bad") /\ call = "A")
  /\ (call = "B" => Has("second"))
  /\ (IF k # "good" THEN Pay("bad") ELSE Keep)
  /\ CLogin(c, k, call) /\ Same /\ Lab(<<"login", c, k, call>>)
EnvEnd == \E c \in Cs : \E how \in {"fin", "close", "rst"} :
  /\ Has("end") /\ Open(c) /\ Pay("end") /\ CEnd(c, how) /\ Same /\ Lab(<<"end", c, how>>)
In(c) == Open(c) /\ cl[c].login = "good"
EnvUdp == \E c \in Cs : \E p \in {"ctl", "dat"} :
  /\ Has("udp") /\ In(c) /\ Pay("udp") /\ Lab(<<"udp", c, p>>)
  /\ LET id == B("udp") - b["udp"] + 1 IN CUdp(c, p, "x", id, 0, 5, 0, 5) /\ h' = [h EXCEPT !.inn = Add(@, <<c, p>>, id)]
EnvDatagram == \E s \in 1..N : \E p \in {"ctl", "dat"} :
  /\ Has("uin") /\ p \in sl[s].b /\ Pay("uin") /\ Lab(<<"uin", s, p>>)
  /\ LET id == 100 + B("uin") - b["uin"] IN Udp(s, p, "y", id, 5) /\ h' = [h EXCEPT !.nin = Add(@, <<sl[s].own, p>>, id)]
EnvOpen == \E c \in Cs : Has("open") /\ In(c) /\ Pay("open") /\ COpen(c, "r") /\ h' = [h EXCEPT !.opens = Add(@, c, Len(cl[c].ats) + 1)]
                         /\ Lab(<<"open", c>>)
EnvClose == \E c \in Cs : Has("close") /\ In(c) /\ Pay("close") /\ CClose(c) /\ h' = [h EXCEPT !.opens = Add(@, c, 0)] /\ Lab(<<"close", c>>)
EnvData == \E c \in Cs : Has("data") /\ In(c) /\ Pay("data") /\ CData(c, cl[c].up, 1, TRUE)
                         /\ h' = [h EXCEPT !.up = Add(@, c, <<cl[c].up, Len(cl[c].ats)>>)] /\ Lab(<<"data", c>>)
EnvAnswer == \E k \in DOMAIN cn : \E ok \in BOOLEAN :
  LET a == cl[cn[k].c].ats[cn[k].i] IN a.mode = "hang" /\ TConnEnd(k, ok) /\ Keep /\ Same /\ Lab(<<"answer", k, ok>>)
Remote(k) == LET a == cl[cn[k].c].ats[cn[k].i] IN a.mode = "ok" /\ ~a.gone /\ a.rend = "no"
EnvRemote == \E k \in DOMAIN cn :
  /\ Has("rdata") /\ Remote(k) /\ Pay("rdata") /\ Lab(<<"rdata", k>>)
  /\ LET a == cl[cn[k].c].ats[cn[k].i] IN RData(k, a.rs, 1)
  /\ h' = [h EXCEPT !.down = Add(@, k, cl[cn[k].c].ats[cn[k].i].rs)]
EnvRemoteEnd == \E k \in DOMAIN cn : \E how \in {"fin", "rst"} :
  Has("rend") /\ Remote(k) /\ Pay("rend") /\ REnd(k, how) /\ Same /\ Lab(<<"rend", k, how>>)
EnvCall == \E f \in {"drop", "shutdown", "close"} :
  /\ Has(f) /\ api.pend = {} /\ (f = "close" => api.shut) /\ Pay(f) /\ Call(f, N, rg) /\ Same /\ Lab(<<"call", f>>)
EnvTick == Has("tick") /\ Pay("tick") /\ Tick(600000, FALSE) /\ Same /\ Lab(<<"tick">>)

Env == EnvConnect \/ EnvLogin \/ EnvEnd \/ EnvUdp \/ EnvDatagram \/ EnvOpen \/ EnvClose \/ EnvData
       \/ EnvAnswer \/ EnvRemote \/ EnvRemoteEnd \/ EnvCall \/ EnvTick

\* ---------------------------------------------------------------- the design
(* Each Want.. is a condition under which the proxy acts, each Do.. the act.  *)
Placing == {c \in Cs : cl[c].st \in {"nonced", "placed"}}
Queue == {c \in Cs : cl[c].st = "conn" /\ ~cl[c].eof}
Turn(c) == c \in Queue /\ \A d \in Queue : c <= d          \* clients are taken in the order they came
At(c) == IF cl[c].ns = 0 THEN NewAttempt("", 0) ELSE cl[c].ats[cl[c].ns]
\* this client's session is over: its own end, or because it was dropped or refused
Over(c) == LET r == cl[c] IN
  \/ r.drop
  \/ r.end \in {"close", "rst"}
  \/ r.end = "fin" /\ (r.login = "none" \/ (r.login = "good" /\ AllActedOn(c)))
  \/ r.note # 0
Bound(c) == cl[c].slot # 0 /\ sl[cl[c].slot].own = c

WantNonce(c) == Turn(c) /\ ~api.shut /\ ~cl[c].drop /\ Cardinality(Placing) < N
WantTurnAway(c) == Turn(c) /\ (api.shut \/ cl[c].drop \/ Cardinality(Placing) >= N)
WantNotice(c) == cl[c].st = "nonced" /\ ~Over(c) /\ cl[c].login \in {"badpw", "badcall"}
WantBind(c, p) == /\ cl[c].login = "good" /\ ~Over(c) /\ cl[c].st \in {"nonced", "placed"}
                  /\ IF Bound(c) THEN p \notin sl[cl[c].slot].b ELSE p = "ctl"
Best(c) == CHOOSE s \in 1..N : SlotOK(s, c) \/ (\A t \in 1..N : ~SlotOK(t, c))
WantUSend(c, p) == Bound(c) /\ sl[cl[c].slot].b = {"ctl", "dat"} /\ ~Over(c) /\ (IF p = "ctl" THEN cl[c].qc ELSE cl[c].qd) # << >>
WantMsg(c, p) == Bound(c) /\ sl[cl[c].slot].b = {"ctl", "dat"} /\ ~Over(c) /\ (IF p = "ctl" THEN sl[cl[c].slot].qc ELSE sl[cl[c].slot].qd) # << >>
\* the attempt is through: refused, or its connection is closed and the client was told
Through(c, i) == LET a == cl[c].ats[i] IN a.st = "fail" \/ (a.st = "ok" /\ a.gone)
WantConn(c) == LET r == cl[c] IN Bound(c) /\ sl[r.slot].b = {"ctl", "dat"} /\ ~Over(c) /\ r.nc < Len(r.ats) /\ r.nc = r.ns /\ r.got >= r.owed /\ (IF r.nc = 0 THEN TRUE ELSE Through(c, r.nc))
WantStat(c) == LET r == cl[c] IN ~Over(c) /\ r.nc > r.ns /\ r.ats[r.nc].mode # "hang"
WantRecv(c) == LET a == At(c) IN ~Over(c) /\ a.st = "ok" /\ ~a.eof /\ a.rend = "no" /\ a.nxt < Lim(c, a)
WantData(c) == LET a == At(c) IN ~Over(c) /\ a.st = "ok" /\ ~a.tcl /\ ~a.eof /\ a.rend # "rst" /\ a.tc < a.rs
\* the remote host ended, or the client closed and everything it sent was delivered
Finished(c) == LET a == At(c) IN a.st = "ok" /\ ((a.rend = "fin" /\ (a.tc = a.rs \/ a.clo # "no")) \/ a.rend = "rst" \/ (a.clo # "no" /\ a.nxt = Lim(c, a)))
WantTEof(c) == At(c).st = "ok" /\ ~At(c).eof /\ (Over(c) \/ Finished(c))
WantTGone(c) == At(c).st = "ok" /\ At(c).eof /\ ~At(c).gone
WantTClose(c) == LET a == At(c) IN
  ~Over(c) /\ Bound(c) /\ ((a.st = "ok" /\ a.gone /\ ~a.tcl /\ cl[c].nc = cl[c].ns /\ a.clo # "rep") \/ cl[c].got < cl[c].owed)
\* a connection attempt still running holds everything up
Trying(c) == cl[c].nc > cl[c].ns /\ cl[c].ats[cl[c].nc].mode = "hang"
\* dropping a client also ends the attempt made for it
WantGiveUp(c) == Trying(c) /\ cl[c].drop
WantTAbort(c) == Over(c) /\ cl[c].nc > cl[c].ns /\ cl[c].ats[cl[c].nc].mode = "ok" /\ ~cl[c].ats[cl[c].nc].gone
Clean(c) == ~Trying(c) /\ ~WantTAbort(c) /\ (At(c).st = "ok" => At(c).gone)
WantUClose(c) == Bound(c) /\ Over(c) /\ Clean(c)
WantEof(c) == cl[c].st \in {"nonced", "placed"} /\ Over(c) /\ Clean(c) /\ ~Bound(c) /\ ~cl[c].eof
WantGone(c) == cl[c].eof /\ cl[c].st \notin {"gone", "done"}
Truth == Cardinality(Placing)
Status == IF Truth >= N THEN "Busy" ELSE "Ready"
WantPost == Reg /\ ~api.shut /\ (rp.n <= rp.want \/ rp.n = 0 \/ rp.st # Status \/ (N > 1 /\ rp.used # Truth))
WantOff == Reg /\ "close" \in api.pend /\ rp.st # "Off" /\ \A c \in Cs : cl[c].st \in {"gone", "done"}
WantUnlisten == api.shut /\ api.lop
WantAccEnd == api.shut /\ api.acc
WantRet(f) == f \in api.pend /\ ~api.lop /\ ~api.acc /\ (f = "close" => ~WantOff /\ \A c \in Cs : cl[c].st \in {"gone", "done"})
WantDropRet == "drop" \in api.pend /\ \A c \in api.must : cl[c].st \in {"gone", "done"}

Head1(c, p) == Head(IF p = "ctl" THEN cl[c].qc ELSE cl[c].qd)
HeadN(c, p) == Head(IF p = "ctl" THEN sl[cl[c].slot].qc ELSE sl[cl[c].slot].qd)

DoNonce(c) == CNonce(c, c, TRUE)
DoTurnAway(c) == CEof(c, 0)
DoNotice(c) == Notice(c, IF cl[c].login = "badpw" THEN 1 ELSE 2)
DoBind(c, p) == UBind(IF Bound(c) THEN cl[c].slot ELSE Best(c), p) /\ cl'[c].slot # 0
DoUSend(c, p) == USend(cl[c].slot, p, Head1(c, p).ip, IF p = "ctl" THEN 5199 ELSE 5198, Head1(c, p).cid, Head1(c, p).len, 0, 0, FALSE)
DoMsg(c, p) == CMsg(c, p, HeadN(c, p)[1], HeadN(c, p)[2], HeadN(c, p)[3])
DoConn(c, m) == TConn(Cardinality(DOMAIN cn) + 1, cl[c].slot, cl[c].ats[cl[c].nc + 1].ip, 5200, m)
DoStat(c) == TStat(c, cl[c].ats[cl[c].nc].mode = "ok")
DoRecv(c) == TRecv(At(c).k, c, At(c).nxt, 1)
DoData(c) == TData(c, At(c).k, At(c).tc, 1)
DoTEof(c) == TEof(At(c).k)
DoTGone(c) == TGone(At(c).k)
DoGiveUp(c) == TConnEnd(cl[c].ats[cl[c].nc].k, FALSE)
DoTAbort(c) == TGone(cl[c].ats[cl[c].nc].k)
DoTClose(c) == TClose(c)
DoUClose(c, p) == UClose(cl[c].slot, p)
DoEof(c) == CEof(c, 0)
DoGone(c) == CGone(c)
DoPost == Post(TRUE, TRUE, Status, IF N = 1 THEN -1 ELSE Truth, IF N = 1 THEN -1 ELSE N, rg.pub)
DoOff == Post(TRUE, TRUE, "Off", -1, -1, rg.pub)

Modes == {"ok"} \cup (IF B("refuse") > 0 THEN {"refuse"} ELSE {}) \cup (IF B("hang") > 0 THEN {"hang"} ELSE {})
Design ==
  \/ \E c \in Cs :
       \/ WantNonce(c) /\ DoNonce(c) /\ Lab(<<"cnonce", c>>) /\ h' = [h EXCEPT !.served = @ \cup {c}]
       \/ WantTurnAway(c) /\ DoTurnAway(c) /\ Lab(<<"ceof", c>>) /\ Same
       \/ WantNotice(c) /\ DoNotice(c) /\ Lab(<<"notice", c>>) /\ h' = [h EXCEPT !.notices = Add(@, c, cl[c].login)]
       \/ \E p \in {"ctl", "dat"} :
            \/ WantBind(c, p) /\ DoBind(c, p) /\ Lab(<<"ubind", IF Bound(c) THEN cl[c].slot ELSE Best(c), p>>) /\ Same
            \/ WantUSend(c, p) /\ DoUSend(c, p) /\ Lab(<<"usend", cl[c].slot, p>>) /\ h' = [h EXCEPT !.out = Add(@, <<c, p>>, Head1(c, p).cid)]
            \/ WantMsg(c, p) /\ DoMsg(c, p) /\ Lab(<<"cmsg", c, p>>) /\ h' = [h EXCEPT !.nout = Add(@, <<c, p>>, HeadN(c, p)[2])]
            \/ WantUClose(c) /\ p \in sl[cl[c].slot].b /\ DoUClose(c, p) /\ Lab(<<"uclose", cl[c].slot, p>>) /\ Same
       \/ \E m \in Modes : WantConn(c) /\ DoConn(c, m) /\ Lab(<<"tconn", Cardinality(DOMAIN cn) + 1, c, cl[c].nc + 1, m>>) /\ h' = [h EXCEPT !.conns = Add(@, c, cl[c].nc + 1)]
       \/ WantStat(c) /\ DoStat(c) /\ Lab(<<"tstat", c>>) /\ h' = [h EXCEPT !.stats = Add(@, c, cl[c].ats[cl[c].nc].mode = "ok")]
       \/ WantRecv(c) /\ DoRecv(c) /\ Lab(<<"trecv", At(c).k>>) /\ h' = [h EXCEPT !.tcp = Add(@, At(c).k, At(c).nxt), !.who = Add(@, At(c).k, c)]
       \/ WantData(c) /\ DoData(c) /\ Lab(<<"tdata", c>>) /\ h' = [h EXCEPT !.got = Add(@, At(c).k, At(c).tc)]
       \/ WantTEof(c) /\ DoTEof(c) /\ Lab(<<"teof", At(c).k>>) /\ Same
       \/ WantTGone(c) /\ DoTGone(c) /\ Lab(<<"tgone", At(c).k>>) /\ Same
       \/ WantTAbort(c) /\ DoTAbort(c) /\ Lab(<<"tgone", cl[c].ats[cl[c].nc].k>>) /\ Same
       \/ WantGiveUp(c) /\ DoGiveUp(c) /\ Lab(<<"tconnend", cl[c].ats[cl[c].nc].k>>) /\ Same
       \/ WantTClose(c) /\ DoTClose(c) /\ Lab(<<"tclose", c>>) /\ h' = [h EXCEPT !.closes = Add(@, c, cl[c].ns)]
       \/ WantEof(c) /\ DoEof(c) /\ Lab(<<"ceof", c>>) /\ Same
       \/ WantGone(c) /\ DoGone(c) /\ Lab(<<"cgone", c>>) /\ Same
  \/ WantPost /\ DoPost /\ Same /\ Lab(<<"post">>)
  \/ WantOff /\ DoOff /\ Same /\ Lab(<<"post">>)
  \/ WantUnlisten /\ Listen(FALSE) /\ Same /\ Lab(<<"lclose">>)
  \/ WantAccEnd /\ AccEnd /\ Same /\ Lab(<<"accend">>)
  \/ \E f \in {"shutdown", "close"} : WantRet(f) /\ Ret(f, 0, FALSE) /\ Same /\ Lab(<<"ret", f>>)
  \/ WantDropRet /\ Ret("drop", 0, FALSE) /\ Same /\ Lab(<<"ret", "drop">>)

Start == /\ api' = [api EXCEPT !.acc = TRUE, !.lop = TRUE, !.started = TRUE]
         /\ IF Reg THEN rp' = [rp EXCEPT !.mode = "ok"] ELSE UNCHANGED rp       \* the registrar answers
         /\ UNCHANGED <<N, rg, cl, sl, fq, rec, cn, lic, flt, ord, nz, b, h, lab>>
Rest == Quiet(IF api.pend = {} THEN "" ELSE CHOOSE f \in api.pend : TRUE, api.acc, {}, {},
              {k \in DOMAIN cn : cl[cn[k].c].ats[cn[k].i].mode = "hang"}, 0)
Wants ==
  \/ \E c \in Cs :
       \/ WantNonce(c) \/ WantTurnAway(c) \/ WantNotice(c) \/ WantConn(c) \/ WantStat(c) \/ WantRecv(c) \/ WantData(c) \/ WantTEof(c)
       \/ WantTGone(c) \/ WantTAbort(c) \/ WantGiveUp(c) \/ WantTClose(c) \/ WantEof(c) \/ WantGone(c) \/ WantUClose(c)
       \/ \E p \in {"ctl", "dat"} : WantBind(c, p) \/ WantUSend(c, p) \/ WantMsg(c, p)
  \/ WantPost \/ WantOff \/ WantUnlisten \/ WantAccEnd \/ WantDropRet \/ \E f \in {"shutdown", "close"} : WantRet(f)

\* ---------------------------------------------------------------- any proxy
(* Whatever can appear at the boundary at all, as far as the contract allows it: what
   is invariant here follows from the contract, whoever meets it.                     *)
Anything ==
  \/ \E c \in Cs :
       \/ \E n \in {c, 1} : cl[c].st = "conn" /\ ~cl[c].eof /\ CNonce(c, n, TRUE) /\ h' = [h EXCEPT !.served = @ \cup {c}]
       \/ \E k \in 1..2 : ~cl[c].eof /\ cl[c].st # "conn" /\ Notice(c, k) /\ h' = [h EXCEPT !.notices = Add(@, c, cl[c].login)]
       \/ ~cl[c].eof /\ CEof(c, 0) /\ Same
       \/ cl[c].eof /\ cl[c].st \notin {"gone", "done"} /\ CGone(c) /\ Same
       \/ \E ok \in BOOLEAN : ~cl[c].eof /\ TStat(c, ok) /\ h' = [h EXCEPT !.stats = Add(@, c, ok)]
       \/ ~cl[c].eof /\ cl[c].got < 2 /\ TClose(c) /\ h' = [h EXCEPT !.closes = Add(@, c, cl[c].ns)]
       \/ \E p \in {"ctl", "dat"}, id \in 100..(100 + B("uin") - 1) :
            ~cl[c].eof /\ CMsg(c, p, "y", id, 5) /\ h' = [h EXCEPT !.nout = Add(@, <<c, p>>, id)]
       \/ \E k \in DOMAIN cn, o \in 0..(B("rdata") - 1) : ~cl[c].eof /\ TData(c, k, o, 1) /\ h' = [h EXCEPT !.got = Add(@, k, o)]
  \/ \E s \in 1..N, p \in {"ctl", "dat"} :
       \/ UBind(s, p) /\ Same
       \/ p \in sl[s].b /\ UClose(s, p) /\ Same
       \/ \E id \in 1..B("udp"), to \in {5198, 5199} :
            p \in sl[s].b /\ USend(s, p, "x", to, id, 5, 0, 0, FALSE) /\ h' = [h EXCEPT !.out = Add(@, <<sl[s].own, p>>, id)]
  \/ \E s \in 1..N, ip \in {"r", "q"}, m \in Modes :
       TConn(Cardinality(DOMAIN cn) + 1, s, ip, 5200, m) /\ h' = [h EXCEPT !.conns = Add(@, OwnT(s), cl[OwnT(s)].nc + 1)]
  \/ \E k \in DOMAIN cn :
       LET a == cl[cn[k].c].ats[cn[k].i] IN
       \/ a.mode = "ok" /\ ~a.eof /\ \E c \in Cs, o \in 0..(B("data") - 1) : TRecv(k, c, o, 1) /\ h' = [h EXCEPT !.tcp = Add(@, k, o), !.who = Add(@, k, c)]
       \/ a.mode = "ok" /\ ~a.eof /\ TEof(k) /\ Same
       \/ a.mode = "ok" /\ a.eof /\ ~a.gone /\ TGone(k) /\ Same
  \/ Reg /\ rp.n < 3 /\ \E st \in {"Ready", "Busy", "Off"}, u \in 0..N : Post(TRUE, TRUE, st, IF N = 1 THEN -1 ELSE u, IF N = 1 THEN -1 ELSE N, rg.pub) /\ Same
  \/ api.lop /\ Listen(FALSE) /\ Same
  \/ api.acc /\ AccEnd /\ Same
  \/ \E f \in api.pend : Ret(f, 0, FALSE) /\ Same
ANext == IF ~api.started /\ ~api.closed THEN Start ELSE Env \/ (Anything /\ Keep /\ Lab(<<"any">>)) \/ (Rest /\ Keep /\ Same /\ Lab(<<"rest">>))
ASpec == MInit /\ [][ANext]_mvars

MNext == IF ~api.started /\ ~api.closed THEN Start
         ELSE Env \/ (Design /\ Keep) \/ (~Wants /\ Rest /\ Keep /\ Same /\ Lab(<<"rest">>))
MSpec == MInit /\ [][MNext]_mvars

\* ---------------------------------------------------------------- the contract can be met
Allowed ==
  /\ \A c \in Cs :
       /\ WantNonce(c) => ENABLED DoNonce(c)
       /\ WantTurnAway(c) => ENABLED DoTurnAway(c)
       /\ WantNotice(c) => ENABLED DoNotice(c)
       /\ \A p \in {"ctl", "dat"} :
            /\ WantBind(c, p) => ENABLED DoBind(c, p)
            /\ WantUSend(c, p) => ENABLED DoUSend(c, p)
            /\ WantMsg(c, p) => ENABLED DoMsg(c, p)
            /\ WantUClose(c) => ENABLED DoUClose(c, p)
       /\ WantConn(c) => ENABLED DoConn(c, "ok")
       /\ WantStat(c) => ENABLED DoStat(c)
       /\ WantRecv(c) => ENABLED DoRecv(c)
       /\ WantData(c) => ENABLED DoData(c)
       /\ WantTEof(c) => ENABLED DoTEof(c)
       /\ WantTClose(c) => ENABLED DoTClose(c)
       /\ WantEof(c) => ENABLED DoEof(c)
  /\ WantPost => ENABLED DoPost
  /\ WantOff => ENABLED DoOff
  /\ WantAccEnd => ENABLED AccEnd
  /\ \A f \in {"shutdown", "close"} : WantRet(f) => ENABLED Ret(f, 0, FALSE)
Restful == (api.started /\ ~Wants) => ENABLED Rest

\* ---------------------------------------------------------------- the properties
IsPrefix1(s, t) == Len(s) <= Len(t) /\ \A i \in 1..Len(s) : s[i] = t[i]
Good(c) == cl[c].login = "good"
P01 == /\ \A x \in DOMAIN h.out \cup DOMAIN h.nout : Good(x[1]) \/ cl[x[1]].st = "done"
       /\ \A c \in DOMAIN h.conns \cup DOMAIN h.stats \cup DOMAIN h.closes : Good(c) \/ cl[c].st = "done"
       /\ \A s \in 1..N : sl[s].own # 0 => Good(sl[s].own)
P02 == \A c \in DOMAIN h.notices : Len(h.notices[c]) = 1 /\ h.notices[c][1] \in {"badpw", "badcall"} /\ cl[c].slot = 0
P03 == Cardinality({c \in Cs : cl[c].st \in {"nonced", "placed"}}) <= N
P04 == /\ \A s, t \in 1..N : s # t /\ sl[s].own # 0 => sl[s].own # sl[t].own
       /\ \A s \in 1..N : sl[s].own # 0 <=> sl[s].b # {}
       /\ \A s \in 1..N : sl[s].own # 0 => cl[sl[s].own].slot = s
P05 == \A x \in DOMAIN h.out : IsPrefix1(h.out[x], Get(h.inn, x, << >>))
P06 == \A x \in DOMAIN h.nout : IsPrefix1(h.nout[x], Get(h.nin, x, << >>))
P07 == /\ \A c \in DOMAIN h.conns : IsPrefix1(h.conns[c], SelectSeq(Get(h.opens, c, << >>), LAMBDA x : x # 0))
       /\ \A c \in DOMAIN h.stats : Len(h.stats[c]) <= Len(Get(h.conns, c, << >>))
\* a remote host receives, in order and once, only what its client sent while it was the open connection
P08 == \A k \in DOMAIN h.tcp :
         LET c == cn[k].c
             mine == SelectSeq(Get(h.up, c, << >>), LAMBDA x : x[2] = cn[k].i) IN
         /\ Len(h.tcp[k]) <= Len(mine) /\ \A i \in 1..Len(h.tcp[k]) : h.tcp[k][i] = mine[i][1]
         /\ \A i \in 1..Len(h.who[k]) : h.who[k][i] = c
P08b == \A k \in DOMAIN h.got : IsPrefix1(h.got[k], Get(h.down, k, << >>))
\* at most one remote connection of a client is open at a time
P09 == \A c \in Cs : Cardinality({i \in 1..Len(cl[c].ats) : cl[c].ats[i].k # 0 /\ cl[c].ats[i].mode = "ok" /\ ~cl[c].ats[i].gone}) <= 1
P11 == \A c \in Cs : cl[c].st \in {"gone", "done"} =>
         /\ \A s \in 1..N : sl[s].own # c
         /\ \A i \in 1..Len(cl[c].ats) : cl[c].ats[i].k # 0 /\ cl[c].ats[i].mode = "ok" => cl[c].ats[i].gone
P12 == api.closed => ~api.lop /\ \A c \in Cs : cl[c].st \in {"gone", "done"}
P13 == Reg /\ api.closed => rp.st = "Off"
\* every client served got a challenge of its own
P23 == Cardinality(nz) = Cardinality(h.served)
=============================================================================

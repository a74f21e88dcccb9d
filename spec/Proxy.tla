------------------------------- MODULE Proxy -------------------------------
(***************************************************************************)
(* What an EchoLink proxy may and must do, as seen at its boundary: the    *)
(* clients' connections, the external UDP ports, the outbound connections, *)
(* the registrar and the calls of its user.                                *)
(*                                                                         *)
(* Every action is one boundary event.  An action is always defined; what  *)
(* the properties demand of it is written as labelled clauses G(tags, ..): *)
(* a clause whose tags meet Focus must hold for the step to exist.  With   *)
(* Focus = AllTags the module is the complete contract (model checked by   *)
(* ProxyMC); a conformance check of one property uses Focus = {its tag}    *)
(* so that a trace is judged for that property alone (ProxyTrace).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Focus,      \* tags of the clauses that are enforced
          Verbose     \* print the name of a clause that fails

VARIABLES
  N,      \* number of external addresses
  rg,     \* registration: [on, pub]
  api,    \* state of the user's calls
  cl,     \* clients: id -> record
  sl,     \* external addresses: 1..N -> record
  fq,     \* free addresses whose order is settled: sequence of sets, oldest first
  rec,    \* free addresses released since the last quiet point
  cn,     \* outbound connections: id -> [c, i]
  rp,     \* reports to the registrar
  lic,    \* injected failures not yet accounted for
  flt,    \* a failure has been injected whose victim is not known
  ord,    \* the order of the free addresses is known
  nz      \* challenges issued

vars == <<N, rg, api, cl, sl, fq, rec, cn, rp, lic, flt, ord, nz>>

AllTags == {"C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11",
            "C12","C13","C17","C20","C21","C22","C23"}

G(tags, name, cond) ==
  IF cond THEN TRUE
  ELSE IF tags \cap Focus = {} THEN TRUE
  ELSE (Verbose => PrintT(<<"CLAUSE", name>>)) /\ FALSE

Min(a, b) == IF a < b THEN a ELSE b
Rng(q) == {q[i] : i \in 1..Len(q)}
First(q, P(_)) == CHOOSE i \in 1..Len(q) : P(q[i]) /\ \A j \in 1..(i-1) : ~P(q[j])
\* what remains of a queue once an element that satisfies P was taken out of it
\* (together with what was skipped); unchanged when there is none
After(q, P(_)) == IF \E i \in 1..Len(q) : P(q[i]) THEN SubSeq(q, First(q, P) + 1, Len(q)) ELSE q

---------------------------------------------------------------------------
NewApi == [st |-> "none", acc |-> FALSE, shut |-> FALSE, shutret |-> FALSE,
           pend |-> {}, must |-> {}, lop |-> FALSE, closed |-> FALSE, started |-> FALSE, freed |-> FALSE]
NewClient == [st |-> "conn", served |-> FALSE, login |-> "none", call |-> "", note |-> 0, slot |-> 0,
              end |-> "no", eof |-> FALSE, bad |-> FALSE, wild |-> FALSE, drop |-> FALSE, hit |-> FALSE, broke |-> FALSE,
              late |-> FALSE, slow |-> FALSE, qc |-> <<>>, qd |-> <<>>,
              up |-> 0, ats |-> <<>>, nc |-> 0, ns |-> 0, owed |-> 0, got |-> 0, free |-> FALSE]
NewAttempt(ip, off) == [ip |-> ip, k |-> 0, st |-> "q", mode |-> "", off |-> off, lim |-> -1, nxt |-> off,
              nd |-> 0, rs |-> 0, tc |-> 0, rend |-> "no", clo |-> "no", tcl |-> FALSE, eof |-> FALSE, gone |-> FALSE, dropped |-> FALSE]
FreeSlot == [own |-> 0, prev |-> 0, b |-> {}, last |-> "", qc |-> <<>>, qd |-> <<>>]
NewRp == [st |-> "none", used |-> -1, total |-> -1, n |-> 0, want |-> 0, mode |-> "none", lost |-> FALSE]

InitFor(n, r) ==
  /\ N = n /\ rg = r /\ api = NewApi
  /\ cl = <<>> /\ sl = [s \in 1..n |-> FreeSlot]
  /\ fq = [i \in 1..n |-> {i}] /\ rec = {}
  /\ cn = <<>> /\ rp = NewRp /\ lic = 0 /\ flt = FALSE /\ ord = TRUE /\ nz = {}

Known(c) == c \in DOMAIN cl
Live(c) == Known(c) /\ cl[c].st # "gone" /\ cl[c].st # "done"
Served == {c \in DOMAIN cl : cl[c].st \in {"nonced", "placed"}}
Placed == {c \in DOMAIN cl : cl[c].st = "placed"}
\* the proxy has a reason to end c's session
Cause(c) == LET r == cl[c] IN
  r.end # "no" \/ r.bad \/ r.wild \/ r.drop \/ r.hit \/ flt \/ lic > 0 \/ r.login \in {"badpw", "badcall", "malformed"}
\* ... that is not the client's own orderly behaviour
Forced(c) == LET r == cl[c] IN r.wild \/ r.drop \/ r.hit \/ flt \/ lic > 0
Own(s) == IF s \in 1..N THEN sl[s].own ELSE 0
\* whose address this is, or was: a client whose ports were closed early is still
\* served what it had sent before (a client that is dropped while the proxy is at one of its
\* requests is gone before the request is through)
OwnT(s) == LET p == IF s \in 1..N THEN sl[s].prev ELSE 0 IN
  IF Own(s) # 0 THEN Own(s) ELSE IF p # 0 /\ cl[p].st # "done" /\ (cl[p].st = "gone" => cl[p].drop \/ cl[p].hit) /\ Cause(p) THEN p ELSE 0
Lim(c, a) == IF a.lim = -1 THEN cl[c].up ELSE a.lim
Cur(c) == cl[c].ns                         \* index of the latest attempt that got its status
SetCl(c, r) == cl' = [cl EXCEPT ![c] = r]

\* A message waiting to be sent; u # 0: one of more than 4096 bytes, of which len
\* have arrived and done were sent so far; opt: a piece of it could not be sent, which
\* may cost the rest of it
Mess(ip, cid, len, u, tot) == [ip |-> ip, cid |-> cid, len |-> len, u |-> u, tot |-> tot, done |-> 0, opt |-> FALSE]
Arrive(q, ip, cid, off, len, u, tot) ==
  IF u # 0 /\ off > 0
  THEN IF q # <<>> /\ q[Len(q)].u = u THEN [q EXCEPT ![Len(q)].len = off + len] ELSE q
  ELSE Append(q, Mess(ip, cid, len, u, tot))
\* nothing is left to be sent, but for a message that has not arrived completely
Sent(q) == \A i \in 1..Len(q) : q[i].len < q[i].tot \/ q[i].opt

---------------------------------------------------------------------------
(* The user's calls; n, r: the addresses and the registration of the configuration *)
(* the proxy is opened with *)
Call(f, n, r) ==
  /\ api' = [api EXCEPT !.pend = @ \cup {f},
                        !.shut = IF f \in {"shutdown", "close", "free"} THEN TRUE ELSE IF f = "open" THEN FALSE ELSE @,
                        !.shutret = IF f = "open" THEN FALSE ELSE @,
                        !.must = IF f \in {"drop", "close", "free"} THEN @ \cup Served ELSE @]
  /\ cl' = IF f \in {"drop", "close", "free"}
           THEN [c \in DOMAIN cl |-> [cl[c] EXCEPT !.drop = TRUE]] ELSE cl
  /\ IF f = "open"
     THEN /\ N' = n /\ rg' = r
          /\ sl' = [s \in 1..n |-> FreeSlot] /\ fq' = [i \in 1..n |-> {i}] /\ rec' = {} /\ ord' = TRUE
     ELSE UNCHANGED <<N, rg, sl, fq, rec, ord>>
  /\ nz' = IF f = "init" THEN {} ELSE nz
  /\ rp' = IF f = "open" THEN [rp EXCEPT !.st = "none", !.mode = "none"]
            ELSE IF f = "start" THEN [rp EXCEPT !.want = rp.n] ELSE rp
  /\ UNCHANGED <<cn, lic, flt>>

\* r = 0 on success, a positive error number otherwise; bad: the call must be refused
Ret(f, r, bad) ==
  LET needed == f \in {"init", "conf", "open", "start"}
      excused == lic > 0 \/ flt IN
  /\ G({"C12","C13","C17","C21"}, "call must succeed", needed /\ ~bad /\ ~excused => r = 0)
  /\ G({"C16","C17","C12","C22"}, "call must be refused", needed /\ bad => r # 0)
  /\ IF f \in {"close", "free"}
     THEN /\ G({"C12","C11"}, "closed with a client connected", \A c \in DOMAIN cl : cl[c].st \in {"gone", "done"})
          /\ G({"C12","C11"}, "closed with a port bound", \A s \in 1..N : sl[s].b = {})
          /\ G({"C12","C11","C09"}, "closed with a remote connection", \A k \in DOMAIN cn :
                  LET a == cl[cn[k].c].ats[cn[k].i] IN a.gone \/ a.st # "ok")
          /\ G({"C12"}, "closed with the listener open", ~api.lop)
          /\ G({"C13"}, "last report is not Off",
               rg.on /\ api.started /\ f = "close" /\ ~rp.lost /\ rp.mode \in {"ok", "500", "short", "close"} => rp.st = "Off")
     ELSE TRUE
  /\ api' = [api EXCEPT !.pend = @ \ {f},
                        !.shutret = IF f \in {"shutdown", "close"} THEN TRUE ELSE @,
                        !.started = IF f = "start" /\ r = 0 THEN TRUE ELSE IF f \in {"close", "open", "free"} THEN FALSE ELSE @,
                        !.acc = IF f = "accept" THEN TRUE ELSE @,
                        !.freed = IF f = "free" THEN TRUE ELSE IF f = "init" THEN FALSE ELSE @,
                        !.closed = IF f = "close" THEN TRUE ELSE IF f = "open" THEN FALSE ELSE @]
  /\ lic' = IF needed /\ r # 0 /\ lic > 0 THEN lic - 1 ELSE lic
  /\ UNCHANGED <<N, rg, cl, sl, fq, rec, cn, rp, flt, ord, nz>>

AccEnd == /\ G({"C12","C03","C21"}, "accept loop ended", api.shut)
          /\ api' = [api EXCEPT !.acc = FALSE]
          /\ UNCHANGED <<N, rg, cl, sl, fq, rec, cn, rp, lic, flt, ord, nz>>
\* proxy_process reported an error
PRet(r) == /\ G({"C03","C12","C19","C21"}, "accepting failed", api.shut \/ lic > 0 \/ flt \/ \E c \in DOMAIN cl : cl[c].hit /\ ~cl[c].served)
           /\ lic' = IF lic > 0 THEN lic - 1 ELSE 0
           /\ UNCHANGED <<N, rg, api, cl, sl, fq, rec, cn, rp, flt, ord, nz>>
Listen(up) == /\ api' = [api EXCEPT !.lop = up]
              /\ UNCHANGED <<N, rg, cl, sl, fq, rec, cn, rp, lic, flt, ord, nz>>

---------------------------------------------------------------------------
(* Connections and logins *)
CConn(c, ok) ==
  /\ cl' = IF ok THEN (c :> [NewClient EXCEPT !.drop = (api.pend \cap {"drop", "close", "free"} # {}), !.late = api.shutret]) @@ cl ELSE cl
  /\ UNCHANGED <<N, rg, api, sl, fq, rec, cn, rp, lic, flt, ord, nz>>

CNonce(c, n, ok) ==
  /\ G({"C03"}, "more clients than places", Cardinality(Served \ {c}) < N)
  /\ G({"C12"}, "let in after shutdown", ~cl[c].late)
  /\ G({"C23"}, "malformed challenge", ok)
  /\ G({"C23"}, "challenge used before", n \notin nz)
  /\ SetCl(c, [cl[c] EXCEPT !.st = "nonced", !.served = TRUE])
  /\ nz' = nz \cup {n}
  /\ UNCHANGED <<N, rg, api, sl, fq, rec, cn, rp, lic, flt, ord>>

CLogin(c, k, call) ==
  /\ SetCl(c, [cl[c] EXCEPT !.login = k, !.call = call])
  /\ UNCHANGED <<N, rg, api, sl, fq, rec, cn, rp, lic, flt, ord, nz>>

Notice(c, k) ==
  LET r == cl[c] IN
  /\ G({"C01"}, "more than one notice", r.note = 0 /\ r.st = "nonced")
  /\ G({"C02","C23","C17"}, "wrong notice", r.st = "nonced" /\ (r.login = (IF k = 1 THEN "badpw" ELSE "badcall") \/ (k = 2 /\ r.login = "good" /\ Forced(c))))
  /\ G({"C10"}, "notice to an admitted client", r.st # "placed")
  /\ SetCl(c, [r EXCEPT !.note = k])
  /\ UNCHANGED <<N, rg, api, sl, fq, rec, cn, rp, lic, flt, ord, nz>>

\* clients that may be holding a place while c is turned away
PotOcc(c) == {d \in DOMAIN cl \ {c} :
  /\ cl[d].st # "done"
  /\ ~(cl[d].st = "gone" /\ ~cl[d].served /\ cl[d].end = "no" /\ ~cl[d].hit /\ ~cl[d].drop)}

UnServedOk(c) == LET r == cl[c] IN
  api.shut \/ r.drop \/ r.end # "no" \/ Forced(c) \/ Cardinality(PotOcc(c)) >= N
Refused(c) == LET r == cl[c] IN
  CASE r.login = "none" -> r.end # "no"
    [] r.login = "malformed" -> r.note = 0
    [] r.login = "badpw" -> r.note = 1 \/ r.end \in {"close", "rst"}
    [] r.login = "badcall" -> r.note = 2 \/ r.end \in {"close", "rst"}
    [] r.login = "good" -> r.end # "no"
\* everything the client sent before an orderly end was acted upon
AllActedOn(c) == LET r == cl[c] IN
  /\ Sent(r.qc) /\ Sent(r.qd)
  /\ r.nc = Len(r.ats) \/ flt
  /\ \A i \in 1..Len(r.ats) : LET a == r.ats[i] IN
       a.st \in {"ok", "try"} /\ a.rend = "no" /\ a.mode = "ok" => a.nxt = Lim(c, a)

CEof(c, part) ==
  LET r == cl[c] IN
  /\ r.st = "conn" => G({"C03","C21","C02"}, "turned away although a place is free", UnServedOk(c))
  /\ r.st = "nonced" =>
        /\ G({"C02","C23","C17"}, "login ended the wrong way", Refused(c) \/ Forced(c))
        /\ G({"C03","C11","C21"}, "client lost during login", Cause(c))
  /\ r.st = "placed" =>
        /\ G({"C02","C05","C06","C07","C08","C09","C11","C20","C21"}, "session ended without a reason", Cause(c))
        /\ G({"C11","C05"}, "messages before an orderly end were not acted upon",
             r.end = "fin" /\ ~Forced(c) => AllActedOn(c))
  /\ G({"C10"}, "message cut", part = 0 \/ r.st # "placed" \/ r.end \in {"close", "rst"} \/ r.slow \/ Forced(c))
  /\ LET bare == r.end = "no" /\ ~r.bad /\ ~r.wild /\ ~r.drop /\ ~r.hit /\ r.login \notin {"badpw","badcall","malformed"}
                 /\ ~(r.st = "conn" /\ (api.shut \/ Cardinality(PotOcc(c)) >= N)) IN
     /\ lic' = IF bare /\ lic > 0 THEN lic - 1 ELSE lic
     /\ SetCl(c, [r EXCEPT !.eof = TRUE, !.hit = @ \/ (bare /\ lic > 0)])
  /\ UNCHANGED <<N, rg, api, sl, fq, rec, cn, rp, flt, ord, nz>>

CGone(c) ==
  /\ SetCl(c, [cl[c] EXCEPT !.st = "gone", !.eof = TRUE])
  /\ UNCHANGED <<N, rg, api, sl, fq, rec, cn, rp, lic, flt, ord, nz>>

CEnd(c, how) ==
  /\ SetCl(c, [cl[c] EXCEPT !.end = how])
  /\ UNCHANGED <<N, rg, api, sl, fq, rec, cn, rp, lic, flt, ord, nz>>
CWin(c, n) ==
  /\ SetCl(c, [cl[c] EXCEPT !.slow = @ \/ n >= 0])
  /\ UNCHANGED <<N, rg, api, sl, fq, rec, cn, rp, lic, flt, ord, nz>>

---------------------------------------------------------------------------
(* External addresses *)
\* (a client that was cut off just after its login may still be given one for a moment)
Waiting == {c \in DOMAIN cl : cl[c].login = "good" /\ cl[c].slot = 0
                              /\ (cl[c].st = "nonced" \/ (cl[c].st = "gone" /\ cl[c].served /\ Cause(c)))}
Settled == UNION Rng(fq)
SlotOK(s, c) ==
  LET call == cl[c].call
      R == {t \in Settled : sl[t].last = call}
      RR == {t \in rec : sl[t].last = call}
      free == Settled \cup rec IN
  /\ s \in free
  /\ (ord /\ Waiting = {c}) =>
       IF R # {} THEN s \in R \cup RR
       ELSE IF RR # {} /\ s \in RR THEN TRUE
       ELSE IF fq # <<>> THEN s \in fq[1] ELSE s \in rec
DropSlot(q, s) == SelectSeq([i \in 1..Len(q) |-> q[i] \ {s}], LAMBDA b : b # {})

UBind(s, p) ==
  /\ IF Own(s) # 0
     THEN /\ G({"C04"}, "port bound twice", p \notin sl[s].b /\ p # "oth" /\ sl[s].prev = 0 /\ (cl[sl[s].own].eof => Cause(sl[s].own)))
          /\ sl' = [sl EXCEPT ![s].b = @ \cup {p}]
          /\ UNCHANGED <<cl, fq, rec>>
     ELSE IF s \notin 1..N \/ Waiting = {}
     THEN /\ G({"C01","C04","C02","C23","C17"}, "port bound for nobody", FALSE)
          /\ UNCHANGED <<cl, sl, fq, rec>>
     ELSE \E c \in Waiting :
          /\ G({"C04"}, "wrong address chosen", SlotOK(s, c) /\ p # "oth")
          /\ SetCl(c, [cl[c] EXCEPT !.st = IF @ = "gone" THEN @ ELSE "placed", !.slot = s])
          /\ sl' = [sl EXCEPT ![s] = [FreeSlot EXCEPT !.own = c, !.b = {p}, !.last = cl[c].call]]
          /\ fq' = DropSlot(fq, s) /\ rec' = rec \ {s}
  /\ UNCHANGED <<N, rg, api, cn, rp, lic, flt, ord, nz>>

UClose(s, p) ==
  /\ IF Own(s) = 0 THEN /\ G({"C04"}, "close of a free port", FALSE) /\ UNCHANGED <<cl, sl, fq, rec>>
     ELSE LET c == sl[s].own
              b == sl[s].b \ {p} IN
       /\ G({"C04","C05","C06","C11","C21"}, "port closed while the client is there", Cause(c))
       /\ sl' = [sl EXCEPT ![s] = IF b = {} THEN [FreeSlot EXCEPT !.last = sl[s].last, !.prev = c]
                                  ELSE IF p = "ctl" THEN [@ EXCEPT !.b = b, !.prev = c, !.qc = <<>>]
                                  ELSE [@ EXCEPT !.b = b, !.prev = c, !.qd = <<>>]]
       /\ rec' = IF b = {} THEN rec \cup {s} ELSE rec
       /\ UNCHANGED <<cl, fq>>
  /\ UNCHANGED <<N, rg, api, cn, rp, lic, flt, ord, nz>>

---------------------------------------------------------------------------
(* UDP, client to network *)
CUdp(c, p, ip, cid, off, len, u, tot) ==
  LET r == cl[c] IN
  /\ SetCl(c, IF r.bad \/ r.wild THEN r
              ELSE IF p = "ctl" THEN [r EXCEPT !.qc = Arrive(@, ip, cid, off, len, u, tot)]
              ELSE [r EXCEPT !.qd = Arrive(@, ip, cid, off, len, u, tot)])
  /\ UNCHANGED <<N, rg, api, sl, fq, rec, cn, rp, lic, flt, ord, nz>>

USend(s, p, ip, dport, cid, len, u, off, failed) ==
  LET c == Own(s) IN
  /\ G({"C01","C05"}, "datagram for nobody", c # 0)
  /\ IF c = 0 THEN UNCHANGED cl
     ELSE LET r == cl[c]
              q0 == IF p = "ctl" THEN r.qc ELSE r.qd
              q == IF q0 # <<>> /\ Head(q0).opt /\ Head(q0).u # u THEN Tail(q0) ELSE q0
              same(x) == x.ip = ip /\ IF x.u = 0 THEN x.cid = cid ELSE x.u = u
              \* a large message leaves in pieces, whatever their size
              fits(x) == same(x) /\ IF x.u = 0 THEN len = x.len ELSE off = x.done /\ off + len <= x.len
              rest == IF q # <<>> /\ fits(Head(q)) /\ Head(q).u # 0 /\ off + len < Head(q).tot
                      THEN [q EXCEPT ![1].done = off + len, ![1].opt = @ \/ failed]
                      ELSE After(q, same) IN
       /\ G({"C05"}, "wrong datagram", r.wild \/ (q # <<>> /\ fits(Head(q)) /\ p # "oth"
                                                   /\ dport = (IF p = "ctl" THEN 5199 ELSE 5198)))
       /\ SetCl(c, IF p = "ctl" THEN [r EXCEPT !.qc = rest] ELSE [r EXCEPT !.qd = rest])
  /\ UNCHANGED <<N, rg, api, sl, fq, rec, cn, rp, lic, flt, ord, nz>>

(* UDP, network to client *)
Udp(s, p, ip, tcid, len) ==
  /\ IF len = 0 \/ Own(s) = 0 THEN UNCHANGED sl
     ELSE sl' = IF p = "ctl" THEN [sl EXCEPT ![s].qc = Append(@, <<ip, tcid, Min(len, 4087)>>)]
                ELSE [sl EXCEPT ![s].qd = Append(@, <<ip, tcid, Min(len, 4087)>>)]
  /\ UNCHANGED <<N, rg, api, cl, fq, rec, cn, rp, lic, flt, ord, nz>>

CMsg(c, p, ip, cid, len) ==
  LET s == cl[c].slot IN
  /\ G({"C01"}, "message before login", cl[c].st = "placed" \/ s # 0)
  /\ G({"C06"}, "message without an address", s # 0)
  /\ IF s = 0 \/ Own(s) # c THEN /\ G({"C06"}, "message after the address was given up", FALSE) /\ UNCHANGED sl
     ELSE LET q == IF p = "ctl" THEN sl[s].qc ELSE sl[s].qd
              same(x) == x[1] = ip /\ x[2] = cid
              rest == After(q, same) IN
       /\ G({"C06"}, "wrong message", q # <<>> /\ same(Head(q)) /\ len = Head(q)[3])
       /\ sl' = IF p = "ctl" THEN [sl EXCEPT ![s].qc = rest] ELSE [sl EXCEPT ![s].qd = rest]
  /\ UNCHANGED <<N, rg, api, cl, fq, rec, cn, rp, lic, flt, ord, nz>>

---------------------------------------------------------------------------
(* The TCP tunnel *)
Mute(c) == cl[c].bad \/ cl[c].wild
\* the last attempt, as a command of the client sees it, is closed at the current position
CloseLast(r, how) ==
  IF r.ats = <<>> \/ r.ats[Len(r.ats)].clo # "no" THEN r.ats
  ELSE [r.ats EXCEPT ![Len(r.ats)].clo = how, ![Len(r.ats)].lim = r.up]
COpen(c, ip) ==
  LET r == cl[c] IN
  /\ SetCl(c, IF Mute(c) THEN r ELSE [r EXCEPT !.ats = Append(CloseLast(r, "rep"), NewAttempt(ip, r.up))])
  /\ UNCHANGED <<N, rg, api, sl, fq, rec, cn, rp, lic, flt, ord, nz>>
CClose(c) ==
  LET r == cl[c] IN
  /\ SetCl(c, IF Mute(c) THEN r ELSE [r EXCEPT !.ats = CloseLast(r, "cmd"), !.free = TRUE])
  /\ UNCHANGED <<N, rg, api, sl, fq, rec, cn, rp, lic, flt, ord, nz>>
CData(c, off, len, last) ==
  LET r == cl[c]
      m == Len(r.ats)
      u == [r EXCEPT !.up = off + len]
      \* surely discarded: no connection is open or being opened for it
      gone == m = 0 \/ r.ats[m].clo # "no" \/ r.ats[m].st = "fail" \/ r.ats[m].tcl IN
  /\ SetCl(c, IF Mute(c) THEN r
              ELSE IF ~last THEN u
              ELSE IF gone THEN [u EXCEPT !.owed = @ + 1]
              ELSE [u EXCEPT !.ats[m].nd = @ + 1])
  /\ UNCHANGED <<N, rg, api, sl, fq, rec, cn, rp, lic, flt, ord, nz>>
CBad(c) ==
  /\ SetCl(c, [cl[c] EXCEPT !.bad = TRUE])
  /\ UNCHANGED <<N, rg, api, sl, fq, rec, cn, rp, lic, flt, ord, nz>>
CWild(c) ==
  /\ SetCl(c, [cl[c] EXCEPT !.wild = TRUE])
  /\ UNCHANGED <<N, rg, api, sl, fq, rec, cn, rp, lic, flt, ord, nz>>

TConn(k, s, ip, port, mode) ==
  LET c == OwnT(s) IN
  /\ G({"C01"}, "connection for nobody", c # 0)
  /\ IF c = 0
     THEN G({"C07"}, "connection from no client's address", FALSE) /\ UNCHANGED <<cl, cn>>
     ELSE LET r == cl[c]
              \* an attempt that failed before it reached the network is passed over
              skip == {i \in (r.nc + 2)..Len(r.ats) : (lic > 0 \/ flt \/ r.hit) /\ r.ats[i].ip = ip /\ port = 5200} IN
       \E j \in {r.nc + 1} \cup skip :
       IF j > Len(r.ats)
       THEN /\ G({"C07"}, "connection nobody asked for", r.wild)
            /\ SetCl(c, [r EXCEPT !.ats = Append(@, [NewAttempt(ip, r.up) EXCEPT !.k = k, !.st = "try", !.mode = mode]), !.nc = Len(r.ats) + 1])
            /\ cn' = (k :> [c |-> c, i |-> Len(r.ats) + 1]) @@ cn
       ELSE /\ G({"C07"}, "wrong destination", r.wild \/ (r.ats[j].ip = ip /\ port = 5200))
            /\ SetCl(c, [r EXCEPT !.ats[j].k = k, !.ats[j].st = "try", !.ats[j].mode = mode, !.ats[j].dropped = r.drop, !.nc = j])
            /\ cn' = (k :> [c |-> c, i |-> j]) @@ cn
  /\ UNCHANGED <<N, rg, api, sl, fq, rec, rp, lic, flt, ord, nz>>

SetAt(c, i, a) == cl' = [cl EXCEPT ![c].ats[i] = a]
TConnEnd(k, ok) ==
  /\ IF k \in DOMAIN cn THEN SetAt(cn[k].c, cn[k].i, [cl[cn[k].c].ats[cn[k].i] EXCEPT !.mode = IF ok THEN "ok" ELSE "refuse"]) ELSE UNCHANGED cl
  /\ UNCHANGED <<N, rg, api, sl, fq, rec, cn, rp, lic, flt, ord, nz>>

TStat(c, ok) ==
  LET r == cl[c]
      i == r.ns + 1 IN
  /\ G({"C01"}, "status before login", r.slot # 0)
  /\ IF i > Len(r.ats) THEN G({"C07"}, "status nobody asked for", r.wild) /\ UNCHANGED <<cl, lic>>
     ELSE LET a == r.ats[i]
              free == a.st = "q" /\ ~ok /\ (lic > 0 \/ flt \/ r.hit) IN
       /\ G({"C07"}, "untruthful status", r.wild \/ free \/ (a.st = "try" /\ (ok <=> a.mode = "ok")))
       /\ lic' = IF free /\ lic > 0 /\ ~r.hit THEN lic - 1 ELSE lic
       /\ SetCl(c, [r EXCEPT !.ns = i, !.nc = IF a.st = "q" /\ i > @ THEN i ELSE @,
                             !.ats[i].st = IF ok THEN "ok" ELSE "fail",
                             !.owed = IF ok THEN @ ELSE @ + a.nd])
  /\ UNCHANGED <<N, rg, api, sl, fq, rec, cn, rp, flt, ord, nz>>

TData(c, k, off, len) ==
  LET r == cl[c] IN
  /\ G({"C01"}, "data before login", r.slot # 0)
  /\ IF k \notin DOMAIN cn
     THEN G({"C08","C10"}, "data that no remote sent", r.wild \/ FALSE) /\ UNCHANGED cl
     ELSE LET d == cn[k].c
              i == cn[k].i
              a == cl[d].ats[i] IN
       /\ G({"C08","C09"}, "data of another client's connection", d = c)
       /\ G({"C07"}, "data before the status", a.st # "try")
       /\ G({"C09"}, "data of an earlier connection", d # c \/ (i = r.ns /\ ~a.tcl))
       /\ G({"C08"}, "data lost, repeated or reordered", off = a.tc /\ off + len <= a.rs)
       /\ SetAt(d, i, [a EXCEPT !.tc = off + len])
  /\ UNCHANGED <<N, rg, api, sl, fq, rec, cn, rp, lic, flt, ord, nz>>

TClose(c) ==
  LET r == cl[c]
      i == r.ns IN
  /\ G({"C01"}, "close before login", r.slot # 0)
  /\ IF i = 0 \/ r.ats[i].st # "ok" \/ r.ats[i].tcl
     THEN /\ G({"C09"}, "close without a reason", r.owed > 0 \/ r.free \/ i > 0 \/ Cause(c))
          /\ SetCl(c, [r EXCEPT !.got = @ + 1])
     ELSE LET a == r.ats[i] IN
       /\ G({"C09","C08"}, "close of a healthy connection", a.rend # "no" \/ a.clo # "no" \/ Cause(c))
       /\ G({"C08","C09"}, "close before all data was delivered",
            a.rend = "fin" /\ a.clo = "no" /\ ~Cause(c) => a.tc = a.rs)
       /\ SetCl(c, [r EXCEPT !.got = @ + 1, !.ats[i].tcl = TRUE])
  /\ UNCHANGED <<N, rg, api, sl, fq, rec, cn, rp, lic, flt, ord, nz>>

TRecv(k, c, off, len) ==
  /\ IF k \notin DOMAIN cn THEN G({"C08","C09"}, "data to an unknown connection", FALSE) /\ UNCHANGED cl
     ELSE LET d == cn[k].c
              i == cn[k].i
              a == cl[d].ats[i] IN
       /\ G({"C08"}, "data the client did not send", c # 0 \/ cl[d].wild)
       /\ G({"C09"}, "data of another client", c = d \/ c = 0)
       /\ G({"C08","C09"}, "data lost, repeated, reordered or of another connection",
            cl[d].wild \/ (off = a.nxt /\ off + len <= Lim(d, a)))
       /\ SetAt(d, i, [a EXCEPT !.nxt = off + len])
  /\ UNCHANGED <<N, rg, api, sl, fq, rec, cn, rp, lic, flt, ord, nz>>

\* the proxy finished sending to (TEof) and let go of (TGone) a remote connection
TEof(k) ==
  /\ IF k \notin DOMAIN cn THEN UNCHANGED cl
     ELSE LET c == cn[k].c
              i == cn[k].i
              r == cl[c]
              a == r.ats[i] IN
       /\ G({"C08","C09","C11"}, "healthy remote connection closed",
            a.mode # "ok" \/ a.rend # "no" \/ a.clo # "no" \/ Cause(c))
       /\ G({"C08","C09"}, "remote connection closed before all data was delivered",
            a.mode = "ok" /\ a.rend = "no" /\ (a.clo # "no" \/ r.end = "fin") /\ r.end \in {"no", "fin"} /\ ~r.bad /\ ~Forced(c)
              => a.nxt = Lim(c, a))
       /\ SetAt(c, i, [a EXCEPT !.eof = TRUE])
  /\ UNCHANGED <<N, rg, api, sl, fq, rec, cn, rp, lic, flt, ord, nz>>
TGone(k) ==
  /\ IF k \notin DOMAIN cn THEN UNCHANGED cl
     ELSE SetAt(cn[k].c, cn[k].i, [cl[cn[k].c].ats[cn[k].i] EXCEPT !.gone = TRUE])
  /\ UNCHANGED <<N, rg, api, sl, fq, rec, cn, rp, lic, flt, ord, nz>>
RData(k, off, len) ==
  /\ IF k \notin DOMAIN cn THEN UNCHANGED cl
     ELSE SetAt(cn[k].c, cn[k].i, [cl[cn[k].c].ats[cn[k].i] EXCEPT !.rs = off + len])
  /\ UNCHANGED <<N, rg, api, sl, fq, rec, cn, rp, lic, flt, ord, nz>>
REnd(k, how) ==
  /\ IF k \notin DOMAIN cn THEN UNCHANGED cl
     ELSE SetAt(cn[k].c, cn[k].i, [cl[cn[k].c].ats[cn[k].i] EXCEPT !.rend = how])
  /\ UNCHANGED <<N, rg, api, sl, fq, rec, cn, rp, lic, flt, ord, nz>>

CBadMsg(c) ==
  /\ G({"C10","C01"}, "malformed message to the client", FALSE)
  /\ UNCHANGED vars

---------------------------------------------------------------------------
(* The registrar *)
RConn(j, mode) ==
  /\ G({"C13"}, "report without a registration name", rg.on)
  /\ rp' = [rp EXCEPT !.mode = mode]
  /\ UNCHANGED <<N, rg, api, cl, sl, fq, rec, cn, lic, flt, ord, nz>>
Post(wf, id, st, used, total, pub) ==
  /\ G({"C13"}, "report without a registration name", rg.on)
  /\ G({"C13"}, "malformed report", wf)
  /\ G({"C13"}, "report with the wrong name, comment, address, port, version or checksum", id)
  /\ G({"C13"}, "wrong public flag", pub = rg.pub)
  /\ G({"C13"}, "unknown status", st \in {"Ready", "Busy", "Off"})
  /\ G({"C13"}, "Off while running", st = "Off" => api.pend \cap {"close", "free"} # {})
  /\ G({"C13"}, "report after the last one", ~api.closed)
  /\ st # "Off" =>
       IF total = -1 THEN G({"C13"}, "counts missing", N = 1)
       ELSE /\ G({"C13"}, "status does not match the counts", (st = "Busy") <=> (used >= total))
            /\ G({"C13"}, "impossible counts", used \in 0..N /\ (total = N \/ (total = 0 /\ api.shut)))
  /\ rp' = [rp EXCEPT !.st = st, !.used = used, !.total = total, !.n = @ + 1, !.lost = FALSE]
  /\ UNCHANGED <<N, rg, api, cl, sl, fq, rec, cn, lic, flt, ord, nz>>
PostBad == /\ G({"C13"}, "malformed report", FALSE) /\ UNCHANGED vars
Tick(ms, calm) ==
  /\ rp' = [rp EXCEPT !.want = IF ms >= 600000 /\ calm /\ api.started THEN rp.n ELSE @]
  /\ UNCHANGED <<N, rg, api, cl, sl, fq, rec, cn, lic, flt, ord, nz>>

\* the end of a run: nothing is left of a proxy that was freed
Ended(fds, heap, files, lib, thr, locks) ==
  /\ api.freed =>
       /\ G({"C22","C12"}, "descriptors left open", fds = 0)
       /\ G({"C22"}, "memory left allocated", heap = 0 /\ lib = 0)
       /\ G({"C22","C18"}, "files left open", files = 0)
       /\ G({"C22","C12"}, "threads left running", thr = 0)
       /\ G({"C22"}, "locks left initialised", locks = 0)
  /\ UNCHANGED vars
MemErr == G({"C22"}, "memory or descriptor misused", FALSE) /\ UNCHANGED vars
Dead(what) == G(AllTags, what, FALSE) /\ UNCHANGED vars

(* Injected failures: c is the client they concern, if any; s the address *)
FaultEv(k, c, s) ==
  LET v == IF c # 0 THEN c ELSE IF k # "sendto" THEN Own(s) ELSE 0
      sys == k \in {"connectreg", "getaddrinfo"} IN
  /\ IF v # 0 /\ Known(v) THEN /\ SetCl(v, [cl[v] EXCEPT !.hit = TRUE, !.broke = @ \/ (c # 0 /\ k \in {"recv", "send"})]) /\ ord' = (ord /\ k # "bindudp") /\ UNCHANGED lic
     ELSE IF k \in {"sendto", "connectreg", "connect"} THEN UNCHANGED <<cl, lic, ord>>
     ELSE lic' = lic + 1 /\ ord' = FALSE /\ UNCHANGED cl
  /\ rp' = IF c = 0 /\ k # "sendto" THEN [rp EXCEPT !.lost = TRUE] ELSE rp    \* it may have cost a report
  /\ UNCHANGED <<N, rg, api, sl, fq, rec, cn, flt, nz>>

---------------------------------------------------------------------------
(* Quiet points: every thread of the proxy waits for something outside.    *)
(* stall: clients that stopped reading; rstall: remote hosts that did;     *)
(* cing: connection attempts without an answer yet                         *)
Blocked(c, rstall, cing) ==
  \E i \in 1..Len(cl[c].ats) : cl[c].ats[i].k # 0 /\ ~cl[c].ats[i].gone /\ cl[c].ats[i].k \in (rstall \cup cing)

Quiet(pend, acc, stall, rstall, cing, rh) ==
  LET alive == {c \in DOMAIN cl : cl[c].st \notin {"gone", "done"}}
      excuse(c) == cl[c].hit \/ flt \/ lic > 0 \/ cl[c].wild
      blk(c) == Blocked(c, rstall, cing)
      idle(c) == c \in Placed /\ cl[c].end = "no" /\ ~cl[c].drop /\ ~cl[c].bad /\ ~excuse(c) /\ c \notin stall
      srv == Cardinality({c \in DOMAIN cl : cl[c].st \in {"nonced", "placed"} \/ (cl[c].st \in {"gone", "done"} /\ blk(c))})
      adm == Cardinality({c \in Placed : ~cl[c].eof})
      hung == rh # 0
      \* an attempt begun after the client was told to leave runs its course
      tail == {k \in cing : k \in DOMAIN cn /\ cl[cn[k].c].ats[cn[k].i].dropped} # {}
  IN
  /\ G({"C12"}, "a call does not return", pend \in {"", "accept"} \/ tail \/ (hung /\ pend = "close"))
  /\ G({"C12"}, "the wait for clients does not end", ~(acc /\ api.shutret))
  /\ G({"C03","C21","C12"}, "a client is left waiting for its turn",
       acc /\ ~api.shut => \A c \in alive \ stall : cl[c].st # "conn")
  /\ G({"C11","C02"}, "a finished client is not let go",
       \A c \in alive : cl[c].st # "conn" /\ cl[c].end # "no" => cl[c].wild \/ blk(c) \/ (cl[c].end = "fin" /\ c \in stall))
  /\ G({"C21","C10","C11"}, "a client whose connection failed is not let go", \A c \in alive : cl[c].broke => blk(c) \/ c \in stall)
  /\ G({"C10","C11"}, "an undefined message does not end the session", \A c \in alive : cl[c].bad => cl[c].wild \/ blk(c) \/ c \in stall)
  /\ G({"C02"}, "a refused client is not let go",
       \A c \in alive : cl[c].st # "conn" /\ cl[c].login \in {"badpw", "badcall", "malformed"} => c \in stall)
  /\ G({"C12","C11"}, "a dropped client is still there", pend = "" => \A c \in api.must \cap alive : api.pend # {} \/ blk(c))
  /\ G({"C02","C04","C21"}, "an admitted client has no address",
       \A c \in alive : cl[c].login = "good" /\ cl[c].st # "conn" /\ cl[c].end = "no" /\ ~cl[c].drop => cl[c].wild \/ blk(c) \/ c \in stall
           \/ (cl[c].slot # 0 /\ sl[cl[c].slot].own = c /\ sl[cl[c].slot].b = {"ctl", "dat"}))
  /\ G({"C11","C04"}, "a departed client's ports are still bound",
       \A s \in 1..N : sl[s].own # 0 => (sl[s].own \in alive \/ blk(sl[s].own) \/ flt \/ lic > 0))
  /\ G({"C11","C09"}, "a departed client's remote connection is still open",
       \A c \in DOMAIN cl \ alive : \A i \in 1..Len(cl[c].ats) : LET a == cl[c].ats[i] IN
          a.k # 0 /\ a.mode = "ok" => a.gone)
  /\ G({"C05"}, "a datagram was not sent", \A c \in alive : idle(c) /\ ~blk(c) => Sent(cl[c].qc) /\ Sent(cl[c].qd))
  /\ G({"C06"}, "a datagram was not relayed", \A c \in alive : idle(c) /\ cl[c].slot # 0 =>
        (sl[cl[c].slot].qc = <<>> /\ sl[cl[c].slot].qd = <<>>))
  /\ G({"C07"}, "an open request has no status", \A c \in alive : idle(c) /\ ~blk(c) => cl[c].ns = Len(cl[c].ats))
  /\ G({"C08"}, "data was not relayed", \A c \in alive : idle(c) /\ cl[c].ns > 0 =>
        LET a == cl[c].ats[cl[c].ns] IN
          ~(a.st = "ok" /\ a.clo = "no" /\ ~a.tcl) \/ (
             /\ (a.rend = "no" /\ ~blk(c) => a.nxt = Lim(c, a))
             /\ (a.rend \in {"no", "fin"} => a.tc = a.rs)))
  /\ G({"C09"}, "a close was not propagated", \A c \in alive : ~(idle(c) /\ ~blk(c)) \/ (
        /\ \A i \in 1..Len(cl[c].ats) : LET a == cl[c].ats[i] IN
             a.st = "ok" /\ (a.rend # "no" \/ a.clo # "no") => a.gone
        /\ ~(cl[c].ns > 0 /\ cl[c].ns = Len(cl[c].ats)) \/
             LET a == cl[c].ats[cl[c].ns] IN (a.st = "ok" /\ (a.rend # "no" \/ a.clo = "cmd")) => a.tcl
        /\ cl[c].got >= cl[c].owed))
  /\ G({"C13"}, "the last report is not the truth",
       rg.on /\ api.started /\ ~api.shut /\ api.pend = {} /\ ~hung /\ ~flt /\ lic = 0 /\ ~rp.lost
          /\ rp.mode \in {"ok", "500", "short", "close", "none"} =>
         /\ rp.n > rp.want
         /\ IF N = 1 THEN (adm = 1 => rp.st = "Busy") /\ (srv = 0 => rp.st = "Ready")
            ELSE rp.used \in adm..srv /\ rp.total = N /\ (rp.st = "Busy" <=> rp.used = N))
  /\ cl' = [c \in DOMAIN cl |-> IF cl[c].st = "gone" /\ ~blk(c) THEN [NewClient EXCEPT !.st = "done", !.served = cl[c].served, !.eof = TRUE, !.ats = cl[c].ats, !.end = cl[c].end, !.drop = TRUE]
                                ELSE IF c \in stall \/ blk(c) THEN cl[c]
                                ELSE [cl[c] EXCEPT !.owed = 0, !.got = 0]]
  /\ fq' = IF rec = {} THEN fq ELSE Append(fq, rec)
  /\ rec' = {}
  /\ rp' = [rp EXCEPT !.want = -1]
  /\ lic' = IF stall \cup rstall \cup cing = {} THEN 0 ELSE lic                     \* whatever a failure was going to cost has been paid by now
  /\ UNCHANGED <<N, rg, api, sl, cn, flt, ord, nz>>
=============================================================================

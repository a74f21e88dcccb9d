--------------------------------- MODULE Conn ---------------------------------
(***************************************************************************)
(* Network connections used by several threads at once.  A handle listens, *)
(* is accepted into, connects out or carries datagrams; the other ends of  *)
(* its connections are peers.  A receive of n bytes is exactly the next n  *)
(* bytes, a successful send has handed over every byte, and closing a      *)
(* handle ends every operation on it.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Focus, Verbose

VARIABLES
  hs,     \* handle -> record
  cur,    \* thread -> operation in progress
  ps,     \* peer -> record
  dq,     \* handle -> datagrams waiting
  usent,  \* operation -> datagrams handed over: [n, left]
  got,    \* send operation -> bytes that arrived at the peer
  flt

cvars == <<hs, cur, ps, dq, usent, got, flt>>

G(name, cond) == IF cond THEN TRUE ELSE (Verbose => PrintT(<<"CLAUSE", name>>)) /\ FALSE
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

CInit == hs = << >> /\ cur = << >> /\ ps = << >> /\ dq = << >> /\ usent = << >> /\ got = << >> /\ flt = 0

\* handle states: idle, starting, listen, bound, conn, dirty (a failed accept, to be closed)
New(ty, a, p) == [st |-> "idle", ty |-> ty, a |-> a, port |-> p, peer |-> 0, over |-> "no", closing |-> 0, rpos |-> 0, unsure |-> FALSE, T |-> 0, gen |-> 0]
Start(h) == [hs[h] EXCEPT !.st = "starting", !.over = "no", !.peer = 0, !.rpos = 0, !.unsure = FALSE, !.T = 0, !.gen = @ + 1]
Ending(h) == [hs[h] EXCEPT !.over = IF hs[h].st = "idle" THEN @ ELSE IF hs[h].st = "starting" THEN "maybe" ELSE "yes"]

BadAddr(a) == a # "" /\ a # "-" /\ (Len(a) < 2 \/ SubSeq(a, 1, 2) = "no")

\* other handles with the same port, and what they are doing
Rivals(h) == [k \in {k \in DOMAIN hs \ {h} : hs[k].ty = "tcp" /\ hs[k].port = hs[h].port} |-> <<hs[k].st, hs[k].gen>>]

Call(e) ==
  /\ cur' = Put(cur, e.t, [f |-> e.f, h |-> e.h, n |-> e.n, g |-> e.g, x |-> e.x, op |-> e.op, ms |-> e.ms, e |-> e,
                           was |-> IF e.h \in DOMAIN hs THEN hs[e.h].st ELSE "none",
                           over |-> IF e.h \in DOMAIN hs THEN hs[e.h].over ELSE "no",
                           rivals |-> IF e.f = "listen" THEN Rivals(e.h) ELSE << >>,
                           T |-> IF e.h \in DOMAIN hs THEN hs[e.h].T ELSE 0,
                           psent |-> IF e.h \in DOMAIN hs /\ hs[e.h].peer # 0 THEN ps[hs[e.h].peer].sent ELSE 0,
                           gen |-> IF e.h \in DOMAIN hs THEN hs[e.h].gen ELSE 0])
  /\ hs' = CASE e.f = "init" -> Put(hs, e.h, New(e.ty, e.a, e.p))
             [] e.f \in {"listen", "connect"} -> Put(hs, e.h, Start(e.h))
             [] e.f = "accept" -> Put(hs, e.g, Start(e.g))
             [] e.f \in {"close", "drop", "free"} -> Put(hs, e.h, [Ending(e.h) EXCEPT !.closing = @ + 1])
             [] e.f = "shut" -> Put(hs, e.h, Ending(e.h))
             [] OTHER -> hs
  /\ IF e.f = "send" THEN got' = Put(got, e.op, 0) ELSE UNCHANGED got
  /\ IF e.f = "sendto" THEN usent' = Put(usent, e.op, << >>) ELSE UNCHANGED usent
  /\ UNCHANGED <<ps, dq, flt>>

\* peers
NoPeer == [port |-> 0, a |-> "", sent |-> 0, ended |-> "", win |-> -1, taken |-> FALSE, eof |-> FALSE, gone |-> FALSE, out |-> FALSE, ip |-> "", src |-> "", ok |-> TRUE, ms |-> 0]
PCon(p, port, a, ok) == ps' = Put(ps, p, [NoPeer EXCEPT !.port = port, !.a = a, !.ok = ok = 1]) /\ UNCHANGED <<hs, cur, dq, usent, got, flt>>
POut(p, ip, port, src, mode) ==
  /\ G("a connection nobody asked for", \E t \in DOMAIN cur : cur[t].f = "connect" /\ cur[t].n = port /\ cur[t].x = ip
         /\ (hs[cur[t].h].a \in {"", "-"} \/ hs[cur[t].h].a = src))
  /\ G("connected twice", \A q \in DOMAIN ps : ~(ps[q].out /\ ps[q].port = port))
  /\ ps' = Put(ps, p, [NoPeer EXCEPT !.port = port, !.out = TRUE, !.ip = ip, !.src = src, !.ok = mode = "ok", !.taken = TRUE])
  /\ UNCHANGED <<hs, cur, dq, usent, got, flt>>
POutEnd(p, ok) == ps' = [ps EXCEPT ![p].ok = ok = 1] /\ UNCHANGED <<hs, cur, dq, usent, got, flt>>
PIn(p, n) == ps' = [ps EXCEPT ![p].sent = @ + n] /\ UNCHANGED <<hs, cur, dq, usent, got, flt>>
PEnd(p, how) == ps' = [ps EXCEPT ![p].ended = IF how = "fin" /\ @ # "" THEN @ ELSE how] /\ UNCHANGED <<hs, cur, dq, usent, got, flt>>
PWin(p, n) == ps' = [ps EXCEPT ![p].win = n] /\ UNCHANGED <<hs, cur, dq, usent, got, flt>>
Owners(p) == {h \in DOMAIN hs : hs[h].peer = p}
\* the connection exists but the accept or connect has not returned yet
Arriving(p) == {h \in DOMAIN hs : \E t \in DOMAIN cur :
  IF ps[p].out THEN cur[t].f = "connect" /\ cur[t].h = h /\ cur[t].n = ps[p].port ELSE cur[t].f = "accept" /\ cur[t].g = h}
PGot(p, op, pos, n) ==
  /\ G("bytes nobody sent", op \in DOMAIN got)
  /\ G("bytes after the send returned", \E t \in DOMAIN cur : cur[t].op = op)
  /\ G("bytes sent to somebody else", \E t \in DOMAIN cur : cur[t].op = op /\ hs[cur[t].h].peer = p)
  /\ G("bytes lost, repeated or reordered", pos = got[op])
  /\ G("more bytes than the peer accepts", ps[p].win = -1 \/ n <= ps[p].win)
  /\ got' = [got EXCEPT ![op] = @ + n]
  /\ ps' = [ps EXCEPT ![p].win = IF @ = -1 THEN -1 ELSE @ - n]
  /\ UNCHANGED <<hs, cur, dq, usent, flt>>
PEof(p) ==
  /\ G("a connection was ended without being asked", flt > 0 \/ (\E h \in Owners(p) \cup Arriving(p) : hs[h].over # "no") \/ (~ps[p].taken /\ (\E h \in DOMAIN hs : hs[h].over # "no")))
  /\ ps' = [ps EXCEPT ![p].eof = TRUE] /\ UNCHANGED <<hs, cur, dq, usent, got, flt>>
PGone(p) ==
  /\ G("a connection was closed without being asked", flt > 0 \/ (\E h \in Owners(p) : hs[h].closing > 0) \/ (~ps[p].taken /\ (\E h \in DOMAIN hs : hs[h].over # "no")))
  /\ ps' = [ps EXCEPT ![p].gone = TRUE, ![p].eof = TRUE] /\ UNCHANGED <<hs, cur, dq, usent, got, flt>>

\* datagrams
Slot(a) == IF a \in {"", "-", "10.0.0.1"} THEN 1 ELSE 2
PortName(p) == IF p = "5199" THEN "ctl" ELSE IF p = "5198" THEN "dat" ELSE "oth"
DIn(s, p, cid, tcid, len, a) ==
  LET hh == {h \in DOMAIN hs : hs[h].ty = "udp" /\ hs[h].st \in {"bound", "starting"} /\ Slot(hs[h].a) = s /\ PortName(hs[h].port) = p} IN
  /\ dq' = [h \in DOMAIN dq \cup hh |-> IF h \in hh THEN Append(IF h \in DOMAIN dq THEN dq[h] ELSE << >>, [cid |-> cid, tcid |-> tcid, len |-> len, a |-> a, gen |-> hs[h].gen]) ELSE dq[h]]
  /\ UNCHANGED <<hs, cur, ps, usent, got, flt>>
DOut(s, p, ip, dport, cid, len, err) ==
  LET tt == {t \in DOMAIN cur : cur[t].f = "sendto" /\ cur[t].e.cid = cid} IN
  /\ G("a datagram nobody sent", tt # {})
  /\ LET c == cur[CHOOSE t \in tt : TRUE] IN
     /\ G("a datagram went to another address", c.x = ip /\ c.g = dport /\ c.n = len)
     /\ G("a datagram left another port", Slot(hs[c.h].a) = s /\ PortName(hs[c.h].port) = p)
     /\ G("a datagram was sent twice", usent[c.op] = << >>)
     /\ usent' = IF err = 0 THEN [usent EXCEPT ![c.op] = Append(@, len)] ELSE usent
  /\ UNCHANGED <<hs, cur, ps, dq, got, flt>>

---------------------------------------------------------------------------
H(h) == hs[h]
P(p) == IF p \in DOMAIN ps THEN ps[p] ELSE NoPeer
Idle(h) == [hs[h] EXCEPT !.st = "idle", !.over = "no", !.peer = 0, !.gen = @ + 1]
SameGen(c) == H(c.h).gen = c.gen
\* an operation that began on a working connection may fail only for a reason
Reason(c) ==
  \/ flt > 0 \/ c.was \notin {"conn", "bound"} \/ ~SameGen(c) \/ H(c.h).over # "no" \/ c.over # "no" \/ H(c.h).unsure
\* a new use began while the call was waiting for its turn
Unclear(c) == ~SameGen(c) \/ c.was \in {"starting"}
Expect(h) == LET q == IF h \in DOMAIN dq THEN SelectSeq(dq[h], LAMBDA d : d.gen = hs[h].gen) ELSE << >> IN
             SelectSeq(q, LAMBDA d : d.len > 0)

RetBody(c, e) ==
  LET h == c.h  x == IF h \in DOMAIN hs THEN hs[h] ELSE New("", "", "") r == e.r IN
  CASE c.f = "init" -> G("init failed", r = 0 \/ flt > 0) /\ hs' = (IF r = 0 THEN hs ELSE Del(hs, h)) /\ UNCHANGED <<ps, dq>>
    [] c.f = "listen" ->
         /\ LET rivals == {k \in DOMAIN hs \ {h} : x.ty = "tcp" /\ hs[k].ty = "tcp" /\ hs[k].port = x.port /\ hs[k].st \in {"listen", "starting"} /\ hs[k].gen > 0} IN
            /\ G("listening although it cannot", r = 0 => ~BadAddr(x.a))
            /\ G("listening although the port is taken", r = 0 => \A k \in rivals : hs[k].st # "listen" \/ hs[k].over # "no" \/ (hs[k].a # x.a /\ hs[k].a \notin {"", "-"} /\ x.a \notin {"", "-"}))
            /\ G("listening failed", r = 0 \/ (r < 0 /\ (flt > 0 \/ BadAddr(x.a) \/ rivals # {} \/ Rivals(h) # c.rivals)))
         /\ hs' = (IF r = 0 THEN [hs EXCEPT ![h].st = IF x.ty = "udp" THEN "bound" ELSE "listen"] ELSE [hs EXCEPT ![h] = Idle(h)])
         /\ UNCHANGED <<ps, dq>>
    [] c.f = "accept" ->
         LET pp == {p \in DOMAIN ps : ~ps[p].out /\ ps[p].a = e.ra} IN
         IF r = 0 THEN
           /\ G("accepted nobody, or told another address", pp # {})
           /\ LET p == CHOOSE p \in pp : TRUE IN
              /\ G("accepted somebody twice", ~ps[p].taken)
              /\ G("accepted somebody of another listener", ToString(ps[p].port) = x.port)
              /\ G("accepted by a closed listener", c.was \in {"listen"})
              /\ ps' = [ps EXCEPT ![p].taken = TRUE]
              /\ hs' = [hs EXCEPT ![c.g].st = "conn", ![c.g].peer = p]
              /\ UNCHANGED dq
         ELSE
           /\ G("accepting failed", r < 0 /\ (flt > 0 \/ c.was # "listen" \/ c.over # "no" \/ x.over # "no" \/ ~SameGen(c)))
           /\ hs' = [hs EXCEPT ![c.g].st = "dirty"]
           /\ UNCHANGED <<ps, dq>>
    [] c.f = "connect" ->
         LET pp == {p \in DOMAIN ps : ps[p].out /\ ps[p].port = c.n} IN
         IF r = 0 THEN
           /\ G("connected to nobody", pp # {})
           /\ LET p == CHOOSE p \in pp : TRUE IN
              /\ G("connected to somebody who did not answer", ps[p].ok)
              /\ hs' = [hs EXCEPT ![h].st = "conn", ![h].peer = p]
           /\ UNCHANGED <<ps, dq>>
         ELSE
           /\ G("connecting failed", r < 0 /\ (flt > 0 \/ x.over # "no" \/ BadAddr(x.a) \/ BadAddr(c.x) \/ x.ty = "udp" \/ (pp # {} /\ \A p \in pp : ~ps[p].ok)))
           /\ hs' = [hs EXCEPT ![h] = Idle(h)]
           /\ UNCHANGED <<ps, dq>>
    [] c.f = "recv" ->
         /\ G("received on the wrong kind of connection", x.ty = "udp" => r < 0)
         /\ G("received on a closed connection", r > 0 => ~(c.was \in {"idle", "listen", "bound", "dirty"} /\ SameGen(c)))
         /\ IF r >= 0 THEN
              /\ G("not the number of bytes asked for", r = c.n)
              /\ ~Unclear(c) /\ r > 0 =>
                   /\ G("bytes of another connection", e.own = x.peer)
                   /\ G("bytes lost, repeated or reordered", x.unsure \/ e.pos = x.rpos)
              /\ hs' = (IF Unclear(c) THEN [hs EXCEPT ![h].unsure = TRUE] ELSE [hs EXCEPT ![h].rpos = IF r > 0 THEN e.pos + r ELSE @])
            ELSE
              /\ G("receiving failed", c.n = 0 \/ Reason(c) \/ P(x.peer).ended # "" \/ (x.T > 0 /\ e.ms - c.ms >= x.T) \/ (c.T > 0 /\ e.ms - c.ms >= c.T))
              /\ hs' = (IF c.was \in {"conn", "starting"} \/ ~SameGen(c) THEN [hs EXCEPT ![h].unsure = TRUE] ELSE hs)
         /\ UNCHANGED <<ps, dq>>
    [] c.f = "any" ->
         /\ G("received on a closed connection", r > 0 => ~(c.was \in {"idle", "listen", "dirty"} /\ SameGen(c)))
         /\ G("received nothing", r # 0)
         /\ IF r > 0 THEN
              /\ G("more than was asked for", r <= c.n)
              /\ IF x.ty = "udp" THEN
                   LET q == Expect(h) IN
                   /\ ~Unclear(c) =>
                        /\ G("a datagram from nowhere", q # << >>)
                        /\ G("a datagram was altered, lost or reordered", (q[1].len <= c.n => r = q[1].len /\ e.cid = q[1].cid) /\ (q[1].len > c.n => r = c.n /\ (c.n = 4087 => e.cid = q[1].tcid)))
                        /\ G("wrong sender of a datagram", e.ra = q[1].a)
                   /\ dq' = (IF q = << >> THEN dq ELSE [dq EXCEPT ![h] = Tail(q)])
                   /\ UNCHANGED hs
                 ELSE
                   /\ ~Unclear(c) =>
                        /\ G("bytes of another connection", e.own = x.peer)
                        /\ G("bytes lost, repeated or reordered", x.unsure \/ e.pos = x.rpos)
                   /\ hs' = (IF Unclear(c) THEN [hs EXCEPT ![h].unsure = TRUE] ELSE [hs EXCEPT ![h].rpos = e.pos + r])
                   /\ UNCHANGED dq
            ELSE
              /\ G("receiving failed", c.n = 0 \/ Reason(c) \/ (x.peer # 0 /\ P(x.peer).ended # "") \/ (x.T > 0 /\ e.ms - c.ms >= x.T) \/ (c.T > 0 /\ e.ms - c.ms >= c.T))
              /\ UNCHANGED <<hs, dq>>
         /\ UNCHANGED ps
    [] c.f = "send" ->
         /\ G("sent on the wrong kind of connection", x.ty = "udp" => r < 0)
         /\ G("sent on a closed connection", (r = 0 /\ c.n > 0) => ~(c.was \in {"idle", "listen", "dirty"} /\ SameGen(c)))
         /\ G("a send returned a positive number", r <= 0)
         /\ IF r = 0 THEN G("success although bytes are missing", Unclear(c) \/ c.n = 0 \/ got[c.op] = c.n \/ P(x.peer).ended \in {"close", "rst"})
            ELSE G("sending failed", Reason(c) \/ P(x.peer).ended \in {"close", "rst"})
         /\ UNCHANGED <<hs, ps, dq>>
    [] c.f = "sendto" ->
         /\ G("sent on the wrong kind of connection", x.ty = "tcp" => r < 0)
         /\ G("sent on a closed connection", (r = 0 /\ c.n > 0) => ~(c.was = "idle" /\ SameGen(c)))
         /\ G("a send returned a positive number", r <= 0)
         /\ IF r = 0 THEN G("success although nothing was sent", c.n = 0 \/ usent[c.op] = <<c.n>>)
            ELSE G("sending failed", Reason(c) \/ x.ty = "tcp" \/ c.n > 65507)
         /\ UNCHANGED <<hs, ps, dq>>
    [] c.f \in {"close", "drop", "free"} ->
         /\ hs' = (IF c.f = "free" THEN Del(hs, h)
                   ELSE IF x.closing = 1 THEN [hs EXCEPT ![h] = [Idle(h) EXCEPT !.closing = 0]] ELSE [hs EXCEPT ![h].closing = @ - 1])
         /\ G("a closed connection is still open", (x.peer # 0 /\ flt = 0) => P(x.peer).gone)
         /\ UNCHANGED <<ps, dq>>
    [] c.f = "inuse" ->
         /\ G("not in use although it is", (c.was \in {"conn", "listen", "bound"} /\ SameGen(c) /\ c.over = "no" /\ x.over = "no" /\ x.st = c.was) => r = 1)
         /\ G("in use although it is not", (c.was = "idle" /\ SameGen(c)) => r = 0)
         /\ UNCHANGED <<hs, ps, dq>>
    [] c.f = "timeout" ->
         /\ G("setting the timeout failed", r = 0 \/ Reason(c))
         /\ hs' = (IF r = 0 THEN [hs EXCEPT ![h].T = c.n] ELSE hs)
         /\ UNCHANGED <<ps, dq>>
    [] OTHER -> UNCHANGED <<hs, ps, dq>>

Ret(e) ==
  /\ e.t \in DOMAIN cur
  /\ RetBody(cur[e.t], e)
  /\ cur' = Del(cur, e.t)
  /\ UNCHANGED <<usent, got, flt>>

Fault == flt' = flt + 1 /\ UNCHANGED <<hs, cur, ps, dq, usent, got>>
Never(what) == G(what, FALSE) /\ UNCHANGED cvars

\* everything has come to rest: what may still be waiting?
MayWait(c, now) ==
  LET x == hs[c.h] IN
  CASE c.f = "recv" -> x.over # "yes" /\ x.peer # 0 /\ P(x.peer).ended = "" /\ (x.unsure \/ P(x.peer).sent - x.rpos < c.n) /\ (c.T = 0 \/ now - c.ms < c.T \/ P(x.peer).sent # c.psent)
    [] c.f = "any" -> x.over # "yes" /\ IF x.ty = "udp" THEN Expect(c.h) = << >> ELSE x.peer # 0 /\ P(x.peer).ended = "" /\ (x.unsure \/ P(x.peer).sent = x.rpos) /\ (c.T = 0 \/ now - c.ms < c.T \/ P(x.peer).sent # c.psent)
    [] c.f = "send" -> x.over # "yes" /\ x.peer # 0 /\ P(x.peer).ended \in {"", "fin"} /\ P(x.peer).win = 0
    [] c.f = "accept" -> x.over # "yes" /\ (flt > 0 \/ ~\E p \in DOMAIN ps : ps[p].ok /\ ~ps[p].out /\ ~ps[p].taken /\ ~ps[p].gone /\ ToString(ps[p].port) = x.port)
    [] c.f = "connect" -> x.over # "yes" /\ \E p \in DOMAIN ps : ps[p].out /\ ps[p].port = c.n /\ ~ps[p].ok
    [] OTHER -> FALSE
Quiet(now) ==
  /\ \A t \in DOMAIN cur : G("an operation does not return: " \o cur[t].f, MayWait(cur[t], now))
  /\ UNCHANGED cvars
Ended(e) ==
  /\ G("something was left behind", (hs = << >>) => e.heap = 0 /\ e.fds = 0 /\ e.files = 0 /\ e.locks = 0)
  /\ UNCHANGED cvars
=============================================================================

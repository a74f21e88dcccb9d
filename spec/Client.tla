-------------------------------- MODULE Client --------------------------------
(***************************************************************************)
(* The library's own client: it connects to a proxy, answers the challenge *)
(* with its callsign and the password response, and keeps the connection   *)
(* until it is told to disconnect.  The other end of each connection is a  *)
(* peer that sends any bytes in any pieces, stalls or goes away.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Focus, Verbose

VARIABLES
  hs,     \* handle -> [call: hexadecimal, peer: number of the connected peer or 0, ending]
  cur,    \* thread -> operation in progress
  ps,     \* peer -> what it sent, got and did
  flt

kvars == <<hs, cur, ps, flt>>

G(name, cond) == IF cond THEN TRUE ELSE (Verbose => PrintT(<<"CLAUSE", name>>)) /\ FALSE
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

KInit == hs = << >> /\ cur = << >> /\ ps = << >> /\ flt = 0

NewPeer(port, st) == [port |-> port, st |-> st, dig |-> "", got |-> "", ended |-> "", win |-> -1, eof |-> FALSE, gone |-> FALSE]
Of(c) == {p \in DOMAIN ps : ps[p].port = c.n}
\* the operation that is connecting to this peer, and the handle that is connected to it
Connecting(p) == {t \in DOMAIN cur : cur[t].f = "connect" /\ cur[t].n = ps[p].port}
Owner(p) == {h \in DOMAIN hs : hs[h].peer = p}
\* the whole answer: the callsign, a newline and the sixteen bytes of the response
\* (which, to a challenge that is none, may be any)
First(h) == hs[h].call \o "0a"
Full(h, p) == Len(ps[p].got) = Len(First(h)) + 32
Fits(h, p, g) == IF ps[p].dig = "?" THEN Len(g) <= Len(First(h)) + 32 /\ (IF Len(g) <= Len(First(h)) THEN SubSeq(First(h), 1, Len(g)) = g ELSE SubSeq(g, 1, Len(First(h))) = First(h))
                 ELSE LET a == First(h) \o ps[p].dig IN Len(g) <= Len(a) /\ SubSeq(a, 1, Len(g)) = g
NoSuchHost(x) == Len(x) >= 2 /\ SubSeq(x, 1, 2) = "no"

\* why a connection attempt may fail once the connection is made
Spoiled(p) == flt > 0 \/ ps[p].ended \in {"close", "rst"} \/ (ps[p].ended = "fin" /\ ps[p].dig = "")

Call(e) ==
  /\ cur' = Put(cur, e.t, [f |-> e.f, h |-> e.h, n |-> e.n, x |-> e.x, ip |-> e.ip])
  /\ hs' = CASE e.f = "init" -> Put(hs, e.h, [call |-> e.x, peer |-> 0, ending |-> FALSE])
             [] e.f \in {"disconnect", "free"} -> [hs EXCEPT ![e.h].ending = TRUE]
             [] OTHER -> hs
  /\ UNCHANGED <<ps, flt>>

---------------------------------------------------------------------------
\* the network
POut(p, ip, port, mode) ==
  /\ G("a connection nobody asked for", \E t \in DOMAIN cur : cur[t].f = "connect" /\ cur[t].n = port /\ cur[t].ip = ip)
  /\ G("connected twice", \A q \in DOMAIN ps : ps[q].port # port)
  /\ ps' = Put(ps, p, NewPeer(port, IF mode = "ok" THEN "yes" ELSE IF mode = "hang" THEN "wait" ELSE "no"))
  /\ UNCHANGED <<hs, cur, flt>>
POutEnd(p, ok) == ps' = [ps EXCEPT ![p].st = IF ok = 1 THEN "yes" ELSE "no"] /\ UNCHANGED <<hs, cur, flt>>
PIn(p, dig) == ps' = [ps EXCEPT ![p].dig = IF @ = "" THEN dig ELSE @] /\ UNCHANGED <<hs, cur, flt>>
PEnd(p, how) == ps' = [ps EXCEPT ![p].ended = IF how = "fin" /\ @ # "" THEN @ ELSE how] /\ UNCHANGED <<hs, cur, flt>>
PWin(p, n) == ps' = [ps EXCEPT ![p].win = n] /\ UNCHANGED <<hs, cur, flt>>
PGot(p, x) ==
  /\ G("bytes of nobody", Connecting(p) # {})
  /\ LET t == CHOOSE t \in Connecting(p) : TRUE
         g == ps[p].got \o x IN
     /\ G("sent before the challenge was complete", ps[p].dig # "")
     /\ G("not the answer to the challenge", Fits(cur[t].h, p, g))
     /\ G("more bytes than the peer accepts", ps[p].win = -1 \/ Len(x) <= 2 * ps[p].win)
     /\ ps' = [ps EXCEPT ![p].got = g, ![p].win = IF @ = -1 THEN -1 ELSE @ - Len(x) \div 2]
  /\ UNCHANGED <<hs, cur, flt>>
Asked(p) == (\E h \in Owner(p) : hs[h].ending) \/ (Connecting(p) # {} /\ Spoiled(p))
PEof(p) == G("a connection was ended without being asked", Asked(p)) /\ ps' = [ps EXCEPT ![p].eof = TRUE] /\ UNCHANGED <<hs, cur, flt>>
PGone(p) == G("a connection was closed without being asked", Asked(p)) /\ ps' = [ps EXCEPT ![p].gone = TRUE] /\ UNCHANGED <<hs, cur, flt>>

---------------------------------------------------------------------------
RetBody(c, e) ==
  LET h == c.h  r == e.r IN
  CASE c.f = "init" -> G("init failed", r = 0 \/ (r < 0 /\ flt > 0)) /\ hs' = (IF r = 0 THEN hs ELSE Del(hs, h))
    [] c.f = "connect" ->
         IF r >= 0 THEN
           /\ G("a positive result", r = 0)
           /\ G("connected to nobody", Of(c) # {})
           /\ LET p == CHOOSE p \in Of(c) : TRUE IN
              /\ G("connected to somebody who did not answer", ps[p].st = "yes")
              /\ G("success without a challenge", ps[p].dig # "")
              /\ G("success although the answer is incomplete", Full(h, p) \/ ps[p].ended \in {"close", "rst"})
              /\ G("success on a closed connection", ~ps[p].eof /\ ~ps[p].gone)
              /\ hs' = [hs EXCEPT ![h].peer = p]
         ELSE
           /\ G("connecting failed", flt > 0 \/ NoSuchHost(c.ip) \/ (\E p \in Of(c) : ps[p].st = "no" \/ Spoiled(p)))
           /\ G("a failed connection is still open", \A p \in Of(c) : ps[p].st = "yes" => ps[p].gone)
           /\ UNCHANGED hs
    [] c.f \in {"disconnect", "free"} ->
         /\ G("a closed connection is still open", hs[h].peer # 0 => ps[hs[h].peer].gone)
         /\ hs' = (IF c.f = "free" THEN Del(hs, h) ELSE [hs EXCEPT ![h].ending = FALSE, ![h].peer = 0])
    [] c.f = "respond" -> G("the wrong response", IF r = 0 THEN e.x = c.x ELSE r < 0 /\ flt > 0) /\ UNCHANGED hs
    [] c.f = "nonce" -> G("no challenge", r = 0 \/ (r < 0 /\ flt > 0)) /\ UNCHANGED hs
    [] OTHER -> UNCHANGED hs
Ret(e) == RetBody(cur[e.t], e) /\ cur' = Del(cur, e.t) /\ UNCHANGED <<ps, flt>>

Fault == flt' = flt + 1 /\ UNCHANGED <<hs, cur, ps>>
Never(what) == G(what, FALSE) /\ UNCHANGED kvars

\* everything has come to rest: only a connection attempt may still be waiting
MayWait(c) ==
  /\ c.f = "connect"
  /\ \E p \in Of(c) :
       \/ ps[p].st = "wait"
       \/ ps[p].st = "yes" /\ ps[p].ended = "" /\ ps[p].dig = ""
       \/ ps[p].st = "yes" /\ ps[p].ended \in {"", "fin"} /\ ps[p].win = 0 /\ ~Full(c.h, p)
Quiet == (\A t \in DOMAIN cur : G("an operation does not return: " \o cur[t].f, MayWait(cur[t]))) /\ UNCHANGED kvars
Ended(e) ==
  /\ G("something was left behind", (hs = << >>) => e.heap = 0 /\ e.fds = 0 /\ e.files = 0 /\ e.locks = 0)
  /\ UNCHANGED kvars
=============================================================================

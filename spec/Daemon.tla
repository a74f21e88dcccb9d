------------------------------- MODULE Daemon -------------------------------
(***************************************************************************)
(* The daemon as its operator sees it: the command line, the descriptors   *)
(* it opens, the signals it gets, the clients it serves and how it exits.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Focus, Verbose

VARIABLES
  args, confs, n,   \* the command line, the configurations on disk, the number of places
  listening,        \* port being listened on, 0 if none
  opened,           \* something has been opened (configuration, listener, log)
  forked, isparent,
  logged,           \* log file or system log selected
  term, usr, usrq,  \* signals delivered or posted; user signal has settled
  cl,               \* client -> [ok, non, ended, gone, bad, late]
  asked, sent,      \* datagrams requested by clients, sent to the network
  said,             \* lines printed
  flt, soft,        \* faults: any, those that concern one client only
  over

dvars == <<args, confs, n, listening, opened, forked, isparent, logged, term, usr, usrq, cl, asked, sent, said, flt, soft, over>>

G(name, cond) == IF cond THEN TRUE ELSE (Verbose => PrintT(<<"CLAUSE", name>>)) /\ FALSE

---------------------------------------------------------------------------
\* the command line
Ch(s, i) == SubSeq(s, i, i)
Rest(s, i) == SubSeq(s, i, Len(s))
Opts0 == [fg |-> FALSE, debug |-> FALSE, quiet |-> FALSE, sys |-> FALSE, log |-> << >>, conf |-> << >>, help |-> FALSE, bad |-> FALSE]

RECURSIVE Flags(_, _, _, _), Args(_, _, _)
\* the letters of argument a from position j; the result says how many arguments were used
Flags(o, as, i, j) ==
  LET a == as[i] IN
  IF j > Len(a) THEN [o |-> o, i |-> i]
  ELSE LET c == Ch(a, j) IN
       CASE c = "d" -> Flags([o EXCEPT !.debug = TRUE], as, i, j + 1)
         [] c = "F" -> Flags([o EXCEPT !.fg = TRUE], as, i, j + 1)
         [] c = "q" -> Flags([o EXCEPT !.quiet = TRUE], as, i, j + 1)
         [] c \in {"h", "V"} -> Flags([o EXCEPT !.help = TRUE], as, i, j + 1)
         [] c = "S" -> Flags([o EXCEPT !.sys = TRUE, !.bad = o.bad \/ o.log # << >>], as, i, j + 1)
         [] c = "L" -> LET b == o.bad \/ o.sys IN
                       IF j < Len(a) THEN [o |-> [o EXCEPT !.log = <<Rest(a, j + 1)>>, !.bad = b], i |-> i]
                       ELSE IF i < Len(as) THEN [o |-> [o EXCEPT !.log = <<as[i + 1]>>, !.bad = b], i |-> i + 1]
                       ELSE [o |-> [o EXCEPT !.bad = TRUE], i |-> i]
         [] OTHER -> [o |-> [o EXCEPT !.bad = TRUE], i |-> i]
Args(o, as, i) ==
  IF i > Len(as) THEN o
  ELSE LET a == as[i] IN
       IF Len(a) > 1 /\ Ch(a, 1) = "-" THEN
         IF Ch(a, 2) = "-" THEN
           LET x == Rest(a, 3) IN
           Args(CASE x = "debug" -> [o EXCEPT !.debug = TRUE] [] x = "quiet" -> [o EXCEPT !.quiet = TRUE]
                  [] x \in {"help", "version"} -> [o EXCEPT !.help = TRUE] [] OTHER -> [o EXCEPT !.bad = TRUE], as, i + 1)
         ELSE LET r == Flags(o, as, i, 2) IN Args(r.o, as, r.i + 1)
       ELSE IF a = "" \/ o.conf # << >> THEN Args([o EXCEPT !.bad = TRUE], as, i + 1)
       ELSE Args([o EXCEPT !.conf = <<a>>], as, i + 1)
O == Args(Opts0, args, 1)

Path == IF O.conf # << >> THEN O.conf[1] ELSE IF "ELProxy.conf" \in DOMAIN confs THEN "ELProxy.conf" ELSE "/etc/hint.conf"
ConfOk == Path \in DOMAIN confs /\ confs[Path].ok = 1
Runs == ~O.help /\ ~O.bad
LogOk == O.log = << >> \/ Len(O.log[1]) < 6 \/ SubSeq(O.log[1], 1, 6) # "/nodir"

---------------------------------------------------------------------------
DInit(a, c, k) ==
  /\ args = a /\ confs = c /\ n = k
  /\ listening = 0 /\ opened = FALSE /\ forked = FALSE /\ isparent = FALSE /\ logged = FALSE
  /\ term = FALSE /\ usr = FALSE /\ usrq = FALSE
  /\ cl = << >> /\ asked = 0 /\ sent = 0 /\ said = 0 /\ flt = 0 /\ soft = FALSE /\ over = FALSE

D == UNCHANGED <<args, confs, n>>
DS == D /\ UNCHANGED soft
Cl == UNCHANGED <<cl, asked, sent>>
Sg == UNCHANGED <<term, usr, usrq>>
Pr == UNCHANGED <<listening, opened, forked, isparent, logged, said, flt, over>>

FileOpen(p, m) ==
  /\ IF p = "/dev/urandom" THEN TRUE
     ELSE /\ G("opened something although it should not run", Runs)
          /\ G("read another configuration", m = "r" => p = Path)
          /\ G("log file truncated, or not the chosen one", m # "r" => m = "a" /\ O.log = <<p>>)
  /\ opened' = (opened \/ p # "/dev/urandom")
  /\ logged' = (logged \/ m = "a")
  /\ UNCHANGED <<listening, forked, isparent, said, flt, over>> /\ DS /\ Cl /\ Sg
SysOpen ==
  /\ G("system log not asked for", Runs /\ O.sys)
  /\ logged' = TRUE
  /\ UNCHANGED <<listening, opened, forked, isparent, said, flt, over>> /\ DS /\ Cl /\ Sg
Said(d) ==
  /\ G("output in the wrong place", d = "file" => O.log # << >>)
  /\ G("output in the wrong place", d = "syslog" => O.sys)
  /\ G("output to the terminal after switching the log", d \in {"out", "err"} => ~logged \/ ~LogOk \/ flt > 0)
  /\ G("not quiet", (d \in {"out", "err"} /\ Runs /\ O.quiet /\ ~O.debug /\ ConfOk /\ LogOk /\ O.log = << >> /\ ~O.sys /\ flt = 0 /\ ~soft) => DOMAIN cl # {} \/ term \/ usr)
  /\ said' = said + 1
  /\ UNCHANGED <<listening, opened, forked, isparent, logged, flt, over>> /\ DS /\ Cl /\ Sg
Severity(lvl) ==
  /\ G("messages for debugging were not asked for", lvl = 7 => O.debug)

Listen(p) ==
  /\ G("listening although it should not run", Runs /\ ConfOk)
  /\ G("listening on the wrong port", confs[Path].port = p)
  /\ listening' = p /\ opened' = TRUE
  /\ UNCHANGED <<forked, isparent, logged, said, flt, over>> /\ DS /\ Cl /\ Sg
Unlisten == listening' = 0 /\ UNCHANGED <<opened, forked, isparent, logged, said, flt, over>> /\ DS /\ Cl /\ Sg

Fork(par) ==
  /\ G("forked although told to stay in the foreground", Runs /\ ~O.fg)
  /\ G("went into the background before it was listening", listening # 0)
  /\ forked' = TRUE /\ isparent' = (par = 1)
  /\ UNCHANGED <<listening, opened, logged, said, flt, over>> /\ DS /\ Cl /\ Sg

Signal(s) ==
  /\ term' = (term \/ s \in {"TERM", "INT"}) /\ usr' = (usr \/ s = "USR1") /\ UNCHANGED usrq
  /\ Pr /\ DS /\ Cl

Killed == G("killed by a signal", ~opened /\ (term \/ usr)) /\ over' = TRUE
  /\ UNCHANGED <<listening, opened, forked, isparent, logged, said, flt>> /\ DS /\ Cl /\ Sg

Exit(code, fds, heap, files, main) ==
  /\ over' = TRUE
  /\ IF O.help \/ O.bad THEN
       /\ G("something was opened", ~opened)
       /\ G("refused options must fail", (O.bad /\ ~O.help) => code # 0)
       /\ G("help and version must succeed", (O.help /\ ~O.bad) => code = 0)
       /\ G("nothing was printed", said > 0)
     ELSE IF isparent THEN G("the parent must succeed", code = 0)
     ELSE /\ G("exit without being told to", term \/ ~ConfOk \/ flt > 0)
          /\ G("exit with success although nothing worked", code = 0 => term)
          /\ G("exit with failure although told to stop", code # 0 => ~ConfOk \/ flt > 0)
          /\ G("descriptors, memory or files left behind", fds = 0 /\ heap = 0 /\ files = 0)
          /\ G("exit without cleaning up", (term /\ code = 0) => main = 1)
          /\ G("a client was not disconnected", \A c \in DOMAIN cl : cl[c].ok => cl[c].gone)
  /\ UNCHANGED <<listening, opened, forked, isparent, logged, said, flt>> /\ DS /\ Cl /\ Sg

\* clients
New(c, ok) ==
  /\ cl' = [x \in DOMAIN cl \cup {c} |-> IF x = c THEN [ok |-> ok = 1, non |-> FALSE, ended |-> FALSE, gone |-> FALSE, eof |-> FALSE, bad |-> FALSE, late |-> usrq] ELSE cl[x]]
  /\ UNCHANGED <<asked, sent>> /\ Pr /\ DS /\ Sg
Nonce(c) ==
  /\ G("a client was admitted after the user signal", ~cl[c].late)
  /\ G("a client was served before going into the background", Runs /\ (O.fg \/ forked))
  /\ cl' = [cl EXCEPT ![c].non = TRUE] /\ UNCHANGED <<asked, sent>> /\ Pr /\ DS /\ Sg
Live(c) == cl[c].non /\ ~cl[c].eof /\ ~cl[c].ended
Eof(c) ==
  /\ G("a client was dropped", cl[c].non => cl[c].ended \/ cl[c].bad \/ term \/ flt > 0)
  /\ cl' = [cl EXCEPT ![c].eof = TRUE] /\ UNCHANGED <<asked, sent>> /\ Pr /\ DS /\ Sg
Gone(c) == cl' = [cl EXCEPT ![c].gone = TRUE, ![c].eof = TRUE] /\ UNCHANGED <<asked, sent>> /\ Pr /\ DS /\ Sg
End(c) == cl' = [cl EXCEPT ![c].ended = TRUE] /\ UNCHANGED <<asked, sent>> /\ Pr /\ DS /\ Sg
Login(c, k) == cl' = [cl EXCEPT ![c].bad = (@ \/ k # "good")] /\ UNCHANGED <<asked, sent>> /\ Pr /\ DS /\ Sg
Ask == asked' = asked + 1 /\ UNCHANGED <<cl, sent>> /\ Pr /\ DS /\ Sg
Send == sent' = sent + 1 /\ UNCHANGED <<cl, asked>> /\ Pr /\ DS /\ Sg

Fault == flt' = flt + 1 /\ UNCHANGED <<listening, opened, forked, isparent, logged, said, over>> /\ DS /\ Cl /\ Sg
\* a fault that concerns one client only
SoftFault == soft' = TRUE /\ UNCHANGED <<listening, opened, forked, isparent, logged, said, flt, over>> /\ D /\ Cl /\ Sg

Place == {c \in DOMAIN cl : cl[c].non /\ ~cl[c].gone}
Rests ==
  /\ G("the daemon does not exit", Runs /\ ConfOk /\ ~isparent)
  /\ G("not listening", (flt = 0 /\ ~term /\ ~usr) => listening # 0)
  /\ G("did not go into the background", (flt = 0 /\ ~O.fg /\ ~term) => forked)
  /\ G("the log was not switched", (flt = 0 /\ ~term /\ (O.sys \/ (O.log # << >> /\ LogOk))) => logged)
  /\ G("nothing was printed", (flt = 0 /\ O.fg /\ ~O.quiet /\ ~term) => said > 0)
  /\ G("a client waits in vain", (flt = 0 /\ ~term /\ ~usr /\ Cardinality(Place) < n) =>
         \A c \in DOMAIN cl : (cl[c].ok /\ ~cl[c].ended /\ ~cl[c].eof) => cl[c].non)
  /\ G("a client was not let go", (flt = 0 /\ ~term) => \A c \in DOMAIN cl : (cl[c].non /\ cl[c].ended) => cl[c].gone)
  /\ G("a datagram of a connected client was not relayed", (flt = 0 /\ ~term /\ \A c \in DOMAIN cl : ~cl[c].ended /\ ~cl[c].bad /\ cl[c].non) => asked = sent)
Quiet(stall) ==
  /\ over \/ term \/ (stall = 0 => Rests)
  /\ usrq' = usr
  /\ UNCHANGED <<term, usr>> /\ Pr /\ DS /\ Cl

\* several seconds after everything came to rest
Finally ==
  /\ G("the daemon did not stop", ~term)
  /\ UNCHANGED dvars
Never(what) == G(what, FALSE) /\ UNCHANGED dvars
=============================================================================

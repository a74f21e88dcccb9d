--------------------------------- MODULE Log ---------------------------------
(***************************************************************************)
(* Where messages of the library go.  One place is selected at a time.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Focus, Verbose

VARIABLES
  med,      \* the places that may be selected now: [m, p] with m in none, out, file, sys, event
  level,    \* messages above it are dropped
  cur,      \* operation in progress
  wrote,    \* how often the message of that operation has been written
  nopen,    \* log files open
  sysopen,  \* the system log is open
  lib,      \* the proxy is open
  flt

lvars == <<med, level, cur, wrote, nopen, sysopen, lib, flt>>

G(name, cond) == IF cond THEN TRUE ELSE (Verbose => PrintT(<<"CLAUSE", name>>)) /\ FALSE

M(m, p) == [m |-> m, p |-> p]
None == M("none", "")
Idle == [f |-> ""]

LInit ==
  /\ med = {None} /\ level = 3 /\ cur = Idle /\ wrote = 0 /\ nopen = 0 /\ sysopen = FALSE /\ lib = FALSE /\ flt = 0

Call(e) ==
  /\ cur.f = "" /\ cur' = e /\ wrote' = 0
  /\ UNCHANGED <<med, level, nopen, sysopen, lib, flt>>

Target == M(cur.m, IF cur.m = "file" THEN cur.p ELSE "")
\* where output may go at this moment
Places ==
  CASE cur.f = "select" -> med \cup {Target}
    [] cur.f = "open" -> med \cup {M("out", "")}
    [] OTHER -> med
Goes(d, p, pl) ==
  CASE d \in {"out", "err"} -> pl.m = "out"
    [] d = "file" -> pl.m = "file" /\ pl.p = p
    [] d = "syslog" -> pl.m = "sys"
    [] OTHER -> FALSE
\* severities: fatal 0, error 1, warning 2, information 3, debug 4
SysLevel == <<2, 3, 4, 6, 7>>

Out(d, p, lvl, m, whole) ==
  /\ G("output in the wrong place", \E pl \in Places : Goes(d, p, pl))
  /\ G("output outside of any operation", cur.f # "")
  /\ m > 0 =>
       /\ G("a message of another time", cur.f = "log" /\ cur.m = m)
       /\ G("a message was altered", whole = 1)
       /\ G("a message was written twice", wrote = 0)
       /\ G("a message above the level was written", cur.lvl <= level)
       /\ G("wrong severity", d = "syslog" => lvl = SysLevel[cur.lvl + 1])
  /\ G("a message above the level was written", (m = 0 /\ d = "syslog") => \E x \in 0..4 : SysLevel[x + 1] = lvl /\ x <= level)
  /\ G("a message changed", cur.f = "log" => m = cur.m)
  /\ wrote' = wrote + 1
  /\ UNCHANGED <<med, level, cur, nopen, sysopen, lib, flt>>

FileOpen(p, m) ==
  /\ G("a log file was truncated", m = "a" \/ m = "r")
  /\ nopen' = nopen + 1
  /\ UNCHANGED <<med, level, cur, wrote, sysopen, lib, flt>>
FileClose == nopen' = nopen - 1 /\ UNCHANGED <<med, level, cur, wrote, sysopen, lib, flt>>
SysOpen == sysopen' = TRUE /\ UNCHANGED <<med, level, cur, wrote, nopen, lib, flt>>
SysClose == sysopen' = FALSE /\ UNCHANGED <<med, level, cur, wrote, nopen, lib, flt>>

Set(s) ==
  /\ med' = s
  /\ G("an old medium is still open", (\A x \in s : x.m # "file") => nopen = 0)
  /\ G("an old medium is still open", nopen <= 1)
  /\ G("the medium is not open", (\A x \in s : x.m = "file") => nopen = 1)
  /\ G("the system log is still open", (\A x \in s : x.m # "sys") => ~sysopen)

Ret(f, r) ==
  /\ cur.f = f /\ cur' = Idle /\ wrote' = 0
  /\ CASE f = "init" -> G("init failed", r = 0 \/ flt > 0) /\ Set({None}) /\ level' = 3 /\ lib' = FALSE
       [] f = "level" -> level' = cur.a /\ UNCHANGED <<med, lib>>
       [] f = "log" ->
            /\ G("a message is missing", (cur.lvl <= level /\ (\A x \in med : x.m # "none") /\ flt = 0) => wrote = 1)
            /\ UNCHANGED <<med, level, lib>>
       [] f = "ident" ->
            /\ G("the program's name is missing", (level >= 3 /\ (\A x \in med : x.m # "none") /\ flt = 0) => wrote = 1)
            /\ G("a message above the level was written", level < 3 => wrote = 0)
            /\ UNCHANGED <<med, level, lib>>
       [] f = "select" ->
            /\ G("the event log does not exist here", cur.m = "event" => r # 0)
            /\ G("a medium was refused", (cur.m \in {"none", "out", "sys"}) => r = 0)
            /\ G("a file was refused", (cur.m = "file" /\ flt = 0 /\ SubSeq(cur.p, 1, 4) = "/log") => r = 0)
            /\ G("a file that cannot be opened", (cur.m = "file" /\ SubSeq(cur.p, 1, 4) # "/log") => r # 0)
            /\ IF r = 0 THEN Set({Target}) ELSE Set(med)
            /\ UNCHANGED <<level, lib>>
       [] f = "open" ->
            /\ IF r = 0 THEN Set({IF x = None THEN M("out", "") ELSE x : x \in med}) /\ lib' = TRUE
               ELSE Set(med \cup {None}) /\ UNCHANGED lib
            /\ G("open failed", r = 0 \/ flt > 0)
            /\ UNCHANGED level
       [] f = "close" -> Set({None}) /\ lib' = FALSE /\ UNCHANGED level
       [] f = "free" -> Set({None}) /\ lib' = FALSE /\ level' = 3
       [] OTHER -> UNCHANGED <<med, level, lib>>
  /\ UNCHANGED <<nopen, sysopen, flt>>

Kept(ok) == G("what the log file held is lost", ok = 1) /\ UNCHANGED lvars
Fault == flt' = flt + 1 /\ UNCHANGED <<med, level, cur, wrote, nopen, sysopen, lib>>
Never(what) == G(what, FALSE) /\ UNCHANGED lvars
Quiet == G("an operation does not return", cur.f = "") /\ UNCHANGED lvars
Ended(e) == G("something was left behind", e.heap = 0 /\ e.fds = 0 /\ e.files = 0) /\ UNCHANGED lvars
=============================================================================

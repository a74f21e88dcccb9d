------------------------------- MODULE Worker -------------------------------
(***************************************************************************)
(* A background worker: it is started, woken, waited for and joined by any *)
(* number of threads.  Each operation takes effect at one moment between   *)
(* its call and its return; Take, Settle and Exit are the worker's own     *)
(* unobservable steps.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Focus, Verbose

VARIABLES
  alive,    \* a thread of the worker exists
  acc,      \* the worker accepts work
  pend,     \* a request is waiting
  run,      \* "no", "taken" (about to begin), "running", "ended" (not yet idle)
  since,    \* when the worker was last seen busy (or started)
  now,
  ops,      \* thread -> operation in progress
  period,   \* 0, or how long it stays idle at most
  freed, flt

wvars == <<alive, acc, pend, run, since, now, ops, period, freed, flt>>

G(name, cond) == IF cond THEN TRUE ELSE (Verbose => PrintT(<<"CLAUSE", name>>)) /\ FALSE

WInit(p) ==
  /\ alive = FALSE /\ acc = FALSE /\ pend = FALSE /\ run = "no" /\ since = 0 /\ now = 0
  /\ ops = <<>> /\ period = p /\ freed = FALSE /\ flt = 0

Has(t) == t \in DOMAIN ops
Put(t, o) == [x \in DOMAIN ops \cup {t} |-> IF x = t THEN o ELSE ops[x]]
Del(t) == [x \in DOMAIN ops \ {t} |-> ops[x]]
Busy == pend \/ run # "no"

---------------------------------------------------------------------------
\* boundary events
Call(t, f, ms) ==
  /\ ~Has(t) /\ now' = ms
  /\ ops' = Put(t, [f |-> f, st |-> "called", r |-> 0])
  /\ UNCHANGED <<alive, acc, pend, run, since, period, freed, flt>>

Ret(t, f, r, x, ms) ==
  /\ Has(t) /\ ops[t].f = f /\ now' = ms
  /\ ops' = Del(t)
  /\ LET o == ops[t] IN
     CASE f = "init" -> G("init failed", r = 0 \/ flt > 0)
       [] f = "start" -> o.st = "done" /\ G("start result", o.r = 0 <=> r = 0)
       [] f = "wake" -> o.st = "done" /\ G("wake accepted although stopping, or refused although working", o.r = 0 <=> r = 0)
       [] f = "wait" -> o.st = "done" /\ G("wait result", o.r = 0 <=> r = 0)
       [] f = "idle" -> o.st = "done" /\ G("idle untruthful", r = o.r)
       [] f \in {"join", "free"} -> o.st = "done" /\ G("join returned while the worker lives", ~alive /\ x = 0) /\ G("join failed", r = 0)
       [] OTHER -> FALSE
  /\ freed' = (freed \/ f = "free")
  /\ UNCHANGED <<alive, acc, pend, run, since, period, flt>>

Begin(same, ms) ==
  /\ G("a run without a request, or two at once", run = "taken") /\ G("wrong worker", same)
  /\ run' = "running" /\ now' = ms
  /\ UNCHANGED <<alive, acc, pend, since, ops, period, freed, flt>>

Done(ms) ==
  /\ run = "running" /\ run' = "ended" /\ since' = ms /\ now' = ms
  /\ UNCHANGED <<alive, acc, pend, ops, period, freed, flt>>

\* everything that can happen without time passing has happened
Quiet(ms) ==
  /\ now' = ms
  /\ G("an operation does not return", \A t \in DOMAIN ops : run = "running" /\ ops[t].f \in {"wait", "join", "free"})
  /\ G("a request is not served", pend => run = "running")
  /\ G("a run was not finished", run \notin {"taken", "ended"})
  /\ G("the period passed without a run", (period > 0 /\ acc /\ run = "no") => ms < since + period)
  /\ G("the worker did not end", (alive /\ ~acc) => run = "running")
  /\ UNCHANGED <<alive, acc, pend, run, since, ops, period, freed, flt>>

Fault == flt' = flt + 1 /\ UNCHANGED <<alive, acc, pend, run, since, now, ops, period, freed>>
Bad(what) == G(what, FALSE) /\ UNCHANGED wvars
Ended(heap, locks, thr) ==
  /\ G("memory or locks left behind", freed => heap = 0 /\ locks = 0 /\ thr = 0)
  /\ UNCHANGED wvars

---------------------------------------------------------------------------
\* unobservable steps
Called(t, f) == Has(t) /\ ops[t].f = f /\ ops[t].st = "called"
Fin(t, r) == ops' = [ops EXCEPT ![t].st = "done", ![t].r = r]

LStart(t) ==
  /\ Called(t, "start")
  /\ \/ /\ ~alive /\ alive' = TRUE /\ acc' = TRUE /\ since' = now /\ Fin(t, 0) /\ UNCHANGED flt
     \/ /\ alive /\ UNCHANGED <<alive, acc, since, flt>> /\ Fin(t, 0)
     \/ /\ ~alive /\ flt > 0 /\ flt' = flt - 1 /\ Fin(t, -1) /\ UNCHANGED <<alive, acc, since>>
  /\ UNCHANGED <<pend, run, now, period, freed>>

LWake(t) ==
  /\ Called(t, "wake")
  /\ IF acc THEN pend' = TRUE /\ Fin(t, 0) ELSE UNCHANGED pend /\ Fin(t, -1)
  /\ UNCHANGED <<alive, acc, run, since, now, period, freed, flt>>

LWait(t) ==
  /\ Called(t, "wait")
  /\ \/ ~acc /\ Fin(t, -1)
     \/ acc /\ ~Busy /\ Fin(t, 0)
  /\ UNCHANGED <<alive, acc, pend, run, since, now, period, freed, flt>>

LIdle(t) ==
  /\ Called(t, "idle") /\ Fin(t, IF acc /\ ~Busy THEN 1 ELSE 0)
  /\ UNCHANGED <<alive, acc, pend, run, since, now, period, freed, flt>>

\* no more work is accepted from here on; what was accepted is still done
LJoin(t) ==
  /\ (Called(t, "join") \/ Called(t, "free")) /\ acc' = FALSE /\ Fin(t, 0)
  /\ UNCHANGED <<alive, pend, run, since, now, period, freed, flt>>

Take ==
  /\ alive /\ run \in {"no", "ended"}
  /\ pend \/ (period > 0 /\ acc /\ now >= since + period)
  /\ run' = "taken" /\ pend' = FALSE
  /\ UNCHANGED <<alive, acc, since, now, ops, period, freed, flt>>

Settle == run = "ended" /\ run' = "no" /\ UNCHANGED <<alive, acc, pend, since, now, ops, period, freed, flt>>

Exit ==
  /\ alive /\ ~acc /\ ~pend /\ run \in {"no", "ended"}
  /\ alive' = FALSE /\ run' = "no"
  /\ UNCHANGED <<acc, pend, since, now, ops, period, freed, flt>>

Pass(ms) == ms > now /\ now' = ms /\ UNCHANGED <<alive, acc, pend, run, since, ops, period, freed, flt>>

Silent ==
  \/ Take \/ Settle \/ Exit
  \/ \E t \in DOMAIN ops : LStart(t) \/ LWake(t) \/ LWait(t) \/ LIdle(t) \/ LJoin(t)
=============================================================================

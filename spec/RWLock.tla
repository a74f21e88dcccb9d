------------------------------- MODULE RWLock -------------------------------
(***************************************************************************)
(* A lock that is held exclusively by one thread or shared by many, with   *)
(* conditions.  A thread certainly holds the lock between the return of    *)
(* the acquiring call and the call that gives it up, which is all that is  *)
(* assumed about when the implementation takes and releases it.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Focus, Verbose

VARIABLES
  hold,     \* thread -> "x" or "s", while it certainly holds the lock
  req,      \* thread -> what it is doing: [f, c, due, woken]
  now, freed, flt

lvars == <<hold, req, now, freed, flt>>

G(name, cond) == IF cond THEN TRUE ELSE (Verbose => PrintT(<<"CLAUSE", name>>)) /\ FALSE
Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Del(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]

LInit == hold = <<>> /\ req = <<>> /\ now = 0 /\ freed = FALSE /\ flt = 0

Waiting(c) == {t \in DOMAIN req : req[t].f \in {"wait", "twait"} /\ req[t].c = c}

Call(t, f, c, a, ms) ==
  /\ t \notin DOMAIN req /\ now' = ms
  /\ hold' = IF f \in {"unlock", "wait", "twait"} THEN Del(hold, t) ELSE hold
  /\ LET mine == Put(req, t, [f |-> f, c |-> c, due |-> IF f = "twait" THEN ms + a ELSE -1, woken |-> FALSE])
         \* whoever called wait before the lock was acquired is certainly waiting by now
         W == {u \in Waiting(c) : ~req[u].woken}
     IN IF t \in DOMAIN hold /\ f = "wakea" THEN
          req' = [u \in DOMAIN mine |-> IF u \in W THEN [mine[u] EXCEPT !.woken = TRUE] ELSE mine[u]]
        ELSE IF t \in DOMAIN hold /\ f = "wake1" /\ W # {} THEN
          \E u \in W : req' = [mine EXCEPT ![u].woken = TRUE]
        ELSE req' = mine
  /\ UNCHANGED <<freed, flt>>

Excl(t) == G("held exclusively while somebody else holds the lock", DOMAIN hold \subseteq {t})
Shar(t) == G("held shared while somebody holds the lock exclusively", \A u \in DOMAIN hold : hold[u] = "s")

Ret(t, f, r, ms) ==
  /\ t \in DOMAIN req /\ req[t].f = f /\ now' = ms
  /\ req' = Del(req, t)
  /\ CASE f = "lock" -> G("lock failed", r = 0) /\ Excl(t) /\ hold' = Put(hold, t, "x")
       [] f = "slock" -> G("lock failed", r = 0) /\ Shar(t) /\ hold' = Put(hold, t, "s")
       [] f = "unlock" -> G("unlock failed", r = 0) /\ UNCHANGED hold
       [] f = "wait" -> G("wait failed", r = 0) /\ Excl(t) /\ hold' = Put(hold, t, "x")
       [] f = "twait" -> /\ G("timed wait failed", r \in {0, 1})
                         /\ G("timed wait ended too early", r = 1 => ms >= req[t].due)
                         /\ Excl(t) /\ hold' = Put(hold, t, "x")
       [] f \in {"wake1", "wakea"} -> G("wake failed", r = 0) /\ UNCHANGED hold
       [] f = "init" -> G("init failed", r = 0 \/ flt > 0) /\ UNCHANGED hold
       [] OTHER -> UNCHANGED hold
  /\ freed' = (freed \/ f = "free")
  /\ UNCHANGED flt

\* everything that can happen without time passing has happened
Ready(t) ==
  LET q == req[t]
      x == \A u \in DOMAIN hold : u = t
      s == \A u \in DOMAIN hold : hold[u] = "s"
  IN CASE q.f = "lock" -> x
       [] q.f = "slock" -> s
       [] q.f = "wait" -> x /\ q.woken
       [] q.f = "twait" -> x /\ (q.woken \/ now' >= q.due)
       [] OTHER -> TRUE
Quiet(ms) ==
  /\ now' = ms
  /\ G("a thread is stuck", \A t \in DOMAIN req : ~Ready(t))
  /\ UNCHANGED <<hold, req, freed, flt>>

Fault == flt' = flt + 1 /\ UNCHANGED <<hold, req, now, freed>>
Bad(what) == G(what, FALSE) /\ UNCHANGED lvars
Ended(heap, locks) == G("memory or locks left behind", freed => heap = 0 /\ locks = 0) /\ UNCHANGED lvars
=============================================================================

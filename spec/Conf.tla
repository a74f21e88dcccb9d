-------------------------------- MODULE Conf --------------------------------
(***************************************************************************)
(* What a configuration file means.  The text of a file is a string; Parse *)
(* turns it into the settings it makes, line by line, and Load applies it. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Focus, Verbose

VARIABLES
  conf,     \* setting -> << >> (not set) or <<value>>; the list of addresses as it is
  unk,      \* settings about which nothing is known (after a failed load)
  cur,      \* operation in progress
  opened, ever, flt

cvars == <<conf, unk, cur, opened, ever, flt>>

G(name, cond) == IF cond THEN TRUE ELSE (Verbose => PrintT(<<"CLAUSE", name>>)) /\ FALSE

Texts == {"Password", "BindAddress", "ExternalBindAddress", "PublicAddress", "RegistrationName",
          "RegistrationComment", "CallsignsAllowed", "CallsignsDenied"}
Numbers == {"Port", "ConnectionTimeout"}
List == "AdditionalExternalBindAddresses"
Keys == Texts \cup Numbers \cup {List}

Defaults == [k \in Keys |-> CASE k = "Port" -> <<"8100">> [] k = "ConnectionTimeout" -> <<"0">> [] OTHER -> << >>]
Limit == [Port |-> "65535", ConnectionTimeout |-> "4294967295"]

---------------------------------------------------------------------------
\* text
Ch(s, i) == SubSeq(s, i, i)
Blank == {" ", "\t"}
Space == Blank \cup {"\n", "\r"}
RECURSIVE SkipL(_, _, _), SkipR(_, _, _), Find(_, _, _), Split(_, _), Digits(_, _)
SkipL(s, i, set) == IF i <= Len(s) /\ Ch(s, i) \in set THEN SkipL(s, i + 1, set) ELSE i
SkipR(s, j, set) == IF j >= 1 /\ Ch(s, j) \in set THEN SkipR(s, j - 1, set) ELSE j
Find(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE Find(s, c, i + 1)
Split(s, c) == LET p == Find(s, c, 1) IN
  IF p = 0 THEN <<s>> ELSE <<SubSeq(s, 1, p - 1)>> \o Split(SubSeq(s, p + 1, Len(s)), c)
Trim(s) == LET a == SkipL(s, 1, Blank) IN SubSeq(s, a, SkipR(s, Len(s), Space))

\* numbers are compared as strings of digits
DigitSeq == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Val == [c \in {DigitSeq[i] : i \in 1..10} |-> CHOOSE i \in 1..10 : DigitSeq[i] = c]
Digits(s, i) == i > Len(s) \/ (Ch(s, i) \in DOMAIN Val /\ Digits(s, i + 1))
Canon(s) == LET a == SkipL(s, 1, {"0"}) IN IF a > Len(s) THEN "0" ELSE SubSeq(s, a, Len(s))
AtMost(s, t) ==
  \/ Len(s) < Len(t)
  \/ /\ Len(s) = Len(t)
     /\ LET D == {i \in 1..Len(s) : Ch(s, i) # Ch(t, i)} IN
        D = {} \/ LET m == CHOOSE i \in D : \A j \in D : i <= j IN Val[Ch(s, m)] < Val[Ch(t, m)]
Number(k, v) == Len(v) > 0 /\ Digits(v, 1) /\ AtMost(Canon(v), Limit[k])

\* a line is <<"nothing">>, <<"bad">> or <<"set", key, value>>
Line(l) ==
  LET a == SkipL(l, 1, Space) IN
  IF a > Len(l) \/ Ch(l, a) = "#" THEN <<"nothing">>
  ELSE LET e == Find(l, "=", a) IN
       IF e = 0 \/ e = a THEN <<"nothing">>
       ELSE LET k == SubSeq(l, a, SkipR(l, e - 1, Blank))
                v == Trim(SubSeq(l, e + 1, Len(l))) IN
            CASE k \in Numbers -> IF Number(k, v) THEN <<"set", k, <<Canon(v)>>>> ELSE <<"bad">>
              [] k = "Password" -> IF v = "notset" THEN <<"bad">> ELSE <<"set", k, <<v>>>>
              [] k \in Texts -> <<"set", k, IF v = "" THEN << >> ELSE <<v>>>>
              [] k = List -> <<"set", k, IF v = "" THEN << >> ELSE Split(v, ",")>>
              [] OTHER -> <<"nothing">>

Parse(text) == LET L == Split(text, "\n") IN [i \in 1..Len(L) |-> Line(L[i])]
Bad(p) == \E i \in 1..Len(p) : p[i] = <<"bad">>
Mentions(p, k) == {i \in 1..Len(p) : p[i][1] = "set" /\ p[i][2] = k}
Last(p, k) == LET M == Mentions(p, k) IN p[CHOOSE i \in M : \A j \in M : j <= i][3]

---------------------------------------------------------------------------
CInit ==
  /\ conf = Defaults /\ unk = {} /\ cur = [f |-> ""] /\ opened = FALSE /\ ever = FALSE /\ flt = 0

\* what the setting may be once a file has been read; an empty password is no password,
\* and a file which does not mention a setting leaves it or restores its default
May(p, k) ==
  IF Mentions(p, k) # {} THEN {Last(p, k)} \cup (IF k = "Password" /\ Last(p, k) = <<"">> THEN {<< >>} ELSE {})
  ELSE {conf[k], Defaults[k]}
Known(p, k) == Mentions(p, k) # {} \/ k \notin unk

NoPrimary(v) == v = << >> \/ v = <<"0.0.0.0">>

Call(e) ==
  /\ cur.f = "" /\ cur' = e
  /\ UNCHANGED <<conf, unk, opened, ever, flt>>

RetLoad(r) ==
  LET p == Parse(cur.text)
      lists == May(p, List)
      sure == Known(p, List) /\ Known(p, "ExternalBindAddress")
      must == \A l \in lists, x \in May(p, "ExternalBindAddress") : l = << >> \/ ~NoPrimary(x)
      mustnot == \A l \in lists, x \in May(p, "ExternalBindAddress") : l # << >> /\ NoPrimary(x) IN
  /\ G("a configuration that is not there was loaded", cur.miss = 1 => r # 0)
  /\ G("an invalid value was accepted", (cur.miss = 0 /\ Bad(p)) => r # 0)
  /\ G("additional addresses were accepted without a primary one", (cur.miss = 0 /\ sure /\ mustnot) => r # 0)
  /\ G("a valid configuration was refused", (cur.miss = 0 /\ ~Bad(p) /\ sure /\ must /\ flt = 0) => r = 0)
  /\ IF r = 0 THEN cur' = [f |-> "loaded", p |-> p] ELSE cur' = [f |-> ""]
  /\ unk' = IF r = 0 THEN unk ELSE Keys
  /\ UNCHANGED <<conf, opened, ever, flt>>

\* the settings after a successful load
Shown(e) ==
  /\ cur.f = "loaded"
  /\ \A k \in Keys : G("wrong setting", Known(cur.p, k) => e[k] \in May(cur.p, k))
  /\ conf' = [k \in Keys |-> e[k]] /\ unk' = {}
  /\ cur' = [f |-> ""]
  /\ UNCHANGED <<opened, ever, flt>>

Listening(at) ==
  /\ cur' = [f |-> cur.f, at |-> at]
  /\ UNCHANGED <<conf, unk, opened, ever, flt>>

Ret(f, r) ==
  /\ cur.f = f
  /\ IF f = "load" THEN RetLoad(r)
     ELSE /\ cur' = [f |-> ""]
          /\ CASE f = "init" -> G("init failed", r = 0 \/ flt > 0) /\ conf' = Defaults /\ unk' = {} /\ opened' = FALSE
               [] f = "open" ->
                    /\ G("opened without a password", (conf["Password"] = << >> /\ "Password" \notin unk) => r # 0)
                    /\ G("open failed", (conf["Password"] \notin {<< >>, <<"">>} /\ unk = {} /\ flt = 0) => r = 0)
                    /\ G("listening elsewhere", (r = 0 /\ unk = {} /\ conf["Port"] # <<"0">>) =>
                           cur.at = <<(IF conf["BindAddress"] = << >> THEN "0.0.0.0" ELSE conf["BindAddress"][1]) \o ":" \o conf["Port"][1]>>)
                    /\ G("listening although open failed", r # 0 => cur.at = << >>)
                    /\ opened' = (r = 0) /\ UNCHANGED <<conf, unk>>
               [] f = "close" -> opened' = FALSE /\ UNCHANGED <<conf, unk>>
               [] f = "free" -> opened' = FALSE /\ conf' = Defaults /\ unk' = {}
               [] OTHER -> UNCHANGED <<conf, unk, opened>>
          /\ ever' = TRUE /\ UNCHANGED flt

Fault == flt' = flt + 1 /\ UNCHANGED <<conf, unk, cur, opened, ever>>
Never(what) == G(what, FALSE) /\ UNCHANGED cvars
Quiet == G("an operation does not return", cur.f = "") /\ UNCHANGED cvars
Ended(e) ==
  /\ G("something was left behind", e.heap = 0 /\ e.fds = 0 /\ e.files = 0 /\ e.lib = 0)
  /\ UNCHANGED cvars
=============================================================================

----------------------------- MODULE ProxyGen -----------------------------
(* Behaviours of the small proxy in its small world, to be replayed into the
   implementation: TLC's simulator draws them, and each is written out at its last step.
   What ends things early is drawn the less often the more there is left to do.         *)
EXTENDS ProxyMC, Json, TLCExt
CONSTANTS Depth
VARIABLES log
Ending == {"end", "call", "rend"}
Spent == {"end", "drop", "shutdown", "close", "rend", "bad", "second", "refuse", "hang"}
Left == LET S[K \in SUBSET DOMAIN b] == IF K = {} THEN 0 ELSE LET k == CHOOSE k \in K : TRUE IN b[k] + S[K \ {k}] IN S[DOMAIN b \ Spent]
Drawn == /\ (lab'[1] \in Ending => RandomElement(1..(1 + 8 * Left)) = 1)
         /\ (lab'[1] = "data" /\ cl[lab'[2]].ats = << >> => RandomElement(1..6) = 1)
         /\ (lab'[1] = "close" => RandomElement(1..2) = 1)
         /\ (lab'[1] = "rest" => RandomElement(1..3) = 1)
         /\ (lab'[1] = "login" /\ lab'[3] # "good" => RandomElement(1..3) = 1)
GInit == MInit /\ log = << >>
GNext == \/ MNext /\ (lab' # << >> => Drawn)
                  /\ log' = IF lab' = << >> \/ (lab' = <<"rest">> /\ log # << >> /\ log[Len(log)] = lab') THEN log ELSE Append(log, lab')
         \/ UNCHANGED <<mvars, log>>
GSpec == GInit /\ [][GNext]_<<mvars, log>>
Out == (TLCGet("level") = Depth => PrintT("BEH " \o ToJson(log)))
=============================================================================

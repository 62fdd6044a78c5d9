---------------------------- MODULE GenDeadlines ----------------------------
(***************************************************************************)
(* Explores what a connection can do and when, in quarters of the          *)
(* keep-alive, and writes one scenario per transition: what is sent when.  *)
(* After that there is silence until the horizon.                          *)
(* With a keep-alive of hours (PATIENT) nothing is ever due.               *)
(***************************************************************************)
EXTENDS Deadlines, Json, TLC, IOUtils
Patient == IOEnv.PATIENT = "yes"
Keep == IF Patient THEN 100000 ELSE 4
Thorough == IOEnv.TIER = "thorough"
Horizon == IF Patient THEN 18 ELSE IF Thorough THEN 44 ELSE 36
Busy == IF Patient THEN 6 ELSE 5 * Keep
VARIABLES enc, tireless, st, since, now, sent, part, hist
vars == <<enc, tireless, st, since, now, sent, part, hist>>

Init == /\ enc \in BOOLEAN /\ tireless \in BOOLEAN /\ st = First(enc) /\ since = 0 /\ now = 0 /\ sent = 0 /\ part = 0 /\ hist = <<>>
Due == st \in {"hs", "tcp"} /\ now >= since + Most(st, Keep)
Open == st \in {"hs", "tcp"} /\ ~Due
Unit == Units(enc)[sent + 1]
\* some bytes of the next unit
Trickle == /\ Open /\ part < 2 /\ ~tireless
           /\ part' = part + 1
           /\ hist' = Append(hist, <<now, Unit, "part">>)
           /\ UNCHANGED <<enc, tireless, st, since, now, sent>>
\* all that is missing of it
Complete == /\ Open
            /\ hist' = Append(hist, <<now, Unit, "rest">>)
            /\ st' = After(st, Unit)
            /\ since' = IF Restarts(Unit) THEN now ELSE since
            /\ sent' = sent + 1 /\ part' = 0
            /\ UNCHANGED <<enc, tireless, now>>
Close == Due /\ st' = "over" /\ UNCHANGED <<enc, tireless, since, now, sent, part, hist>>
\* who is tireless sends a byte all the time
Tick == /\ ~Due /\ now < Busy /\ st \in {"hs", "tcp"} /\ now' = now + 1
        /\ hist' = IF tireless THEN Append(hist, <<now, Unit, "part">>) ELSE hist
        /\ UNCHANGED <<enc, tireless, st, since, sent, part>>
Next == Trickle \/ Complete \/ Close \/ Tick
Spec == Init /\ [][Next]_vars
View == <<enc, tireless, st, since, now, sent, part>>
\* no connection is ever too long on its way
InTime == st \in {"hs", "tcp"} => now <= since + Most(st, Keep)
\* silence follows, and after the last transition those that are left over
Emit == hist' = hist \/ PrintT("@" \o ToJson([enc |-> enc, horizon |-> Horizon, keep |-> Keep, acts |-> hist']))
Stop == IF (st' = "over") \/ (Patient /\ now' = Busy /\ now # Busy) THEN PrintT("@" \o ToJson([enc |-> enc, horizon |-> Horizon, keep |-> Keep, acts |-> hist])) ELSE TRUE
=============================================================================

--------------------------- MODULE DeadlinesTrace ---------------------------
(***************************************************************************)
(* Validates when the broker closed connections, in milliseconds since the *)
(* client began to connect.  All that is known of the time at which the    *)
(* broker noticed something is an interval, so each stage began somewhere  *)
(* in [lo, hi], and where it cannot be told whether something was in time, *)
(* both are explored.                                                      *)
(***************************************************************************)
EXTENDS Deadlines, Json, IOUtils, TLC
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES s, st, lo, hi, n
vars == <<s, st, lo, hi, n>>
R == Trace[s]
\* how long it may take to notice something, how late something may happen: the machine may be slow
Slack == 300 + 4 * R.lag
Late == 1500 + 4 * R.lag
Limit == Most(st, R.keep)

Init == /\ s \in 1..Len(Trace) /\ n = 0
        /\ st = First(Trace[s].enc) /\ lo = 0 /\ hi = Trace[s].connected + 300 + 4 * Trace[s].lag
Ev == R.sent[n + 1]
\* all of a unit was sent
InTime == /\ Ev[4] = "rest" /\ st \in {"hs", "tcp"} /\ Ev[1] <= hi + Limit + Late
          /\ st' = After(st, Ev[3])
          /\ IF Restarts(Ev[3]) THEN lo' = Ev[1] /\ hi' = Ev[2] + Slack ELSE UNCHANGED <<lo, hi>>
TooLate == /\ Ev[4] = "rest" /\ st \in {"hs", "tcp"} /\ Ev[2] + Slack >= lo + Limit
           /\ st' = "over" /\ lo' = lo + Limit /\ hi' = hi + Limit
\* bytes change nothing
Bytes == Ev[4] = "part" \/ st \notin {"hs", "tcp"}
Next == /\ n < Len(R.sent)
        /\ \/ InTime \/ TooLate
           \/ Bytes /\ UNCHANGED <<st, lo, hi>>
        /\ n' = n + 1 /\ s' = s
Spec == Init /\ [][Next]_vars

Closes(from, to) == R.closed >= from - 20 /\ R.closed <= to + Late
Ok == CASE st = "live" -> R.closed = -1 /\ R.alive /\ R.listed
        [] st = "over" -> Closes(lo, hi) /\ ~R.alive /\ ~R.listed
        [] OTHER -> /\ IF R.closed = -1 THEN R.end <= hi + Limit + Late ELSE Closes(lo + Limit, hi + Limit)
                    /\ ~R.alive /\ ~R.listed
Note == n = Len(R.sent) /\ Ok => TLCSet(2, TLCGet(2) \cup {s})
ASSUME TLCSet(2, {})
Canary(x) == "canary" \in DOMAIN Trace[x]
Broken == {x \in 1..Len(Trace) : (x \in TLCGet(2)) = Canary(x)}
Report == Broken = {} \/ (PrintT(<<"BROKEN", CHOOSE x \in Broken : \A y \in Broken : x <= y>>) /\ FALSE)
=============================================================================

--------------------------- MODULE LifecycleTrace ---------------------------
(* Validates what was recorded of servers that were started and shut down:  *)
(* after every call its result, the addresses at which nobody listens, the  *)
(* connections that are open and the lists of clients; at the end who       *)
(* received which messages when everyone sent one.                          *)
EXTENDS Lifecycle, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
ToSet(q) == {q[k] : k \in 1..Len(q)}
Canary(rec) == "canary" \in DOMAIN rec

RECURSIVE Follows(_, _, _)
Follows(S, ops, k) ==
    IF k > Len(ops) THEN <<TRUE, S>>
    ELSE LET o == ops[k]
             T == Do(S, o.call) IN
         IF /\ Allowed(S, o.call)
            /\ o.res = Result(S, o.call)
            /\ ToSet(o.free) = Free(T)
            /\ ToSet(o.open) = Open(T)
            /\ \A s \in Servers : ToSet(o.lists[s]) = Listed(T, s) /\ Len(o.lists[s]) = Cardinality(Listed(T, s))
         THEN Follows(T, ops, k + 1) ELSE <<FALSE, S>>
Holds(rec) ==
    LET r == Follows(Empty, rec.ops, 1) IN
    /\ r[1]
    /\ rec.end = "ok"
    /\ \A c \in 1..Len(r[2].conns) : ToSet(rec.heard[c]) = Heard(r[2], c) /\ Len(rec.heard[c]) = Cardinality(Heard(r[2], c))
\* does it start something that cannot be, or two servers?
Bites(rec) == Cardinality({k \in 1..Len(rec.ops) : rec.ops[k].call[1] = "start"}) > 1 \/ \E k \in 1..Len(rec.ops) : rec.ops[k].res = "no"

Init == i = 1
Next == i < Len(Trace) /\ i' = i + 1
Conforms ==
    LET rec == Trace[i] IN
    /\ Holds(rec) # Canary(rec) \/ (PrintT(<<"BROKEN", i>>) /\ FALSE)
    /\ Bites(rec) /\ ~Canary(rec) => TLCSet(1, TLCGet(1) + 1)
ASSUME TLCSet(1, 0)
Report == PrintT(<<"BITES", TLCGet(1)>>)
Spec == Init /\ [][Next]_i
=============================================================================

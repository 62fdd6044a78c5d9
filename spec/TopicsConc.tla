----------------------------- MODULE TopicsConc -----------------------------
(***************************************************************************)
(* Validates recorded concurrent histories of the real topics table:       *)
(*   init   calls made before                                              *)
(*   ops    [c: the call or <<"look", topic>>, b: time of the call,        *)
(*           e: time of the return, r: the answers of a lookup]            *)
(*   fin    lookups made afterwards, [t, r]                                *)
(*   swept  the same, after unsubscribe-all of every client                *)
(*   end    "ok", or how the calls failed to complete                      *)
(***************************************************************************)
EXTENDS Topics, Json, IOUtils

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE i

IsLook(o) == o.c[1] = "look"
Answers(r, c) == {r[x][2] : x \in {y \in 1..Len(r) : r[y][1] = c}}
Once(r) == Len(r) = Cardinality({r[x][1] : x \in 1..Len(r)})

Holds(rec) ==
    LET start == DoAll(EmptyTable, rec.init, 1)
        ops == rec.ops
        ws == {x \in 1..Len(ops) : ~IsLook(ops[x])}
        keys == DOMAIN start \cup {<<ops[x].c[2], ops[x].c[3]>> : x \in {y \in ws : ops[y].c[1] = "sub"}}
        writes == [k \in keys |->
                     {[call |-> -2, ret |-> -1, val |-> IF k \in DOMAIN start THEN start[k] ELSE <<>>]}
                     \cup {[call |-> ops[x].b, ret |-> ops[x].e, val |-> Written(ops[x].c)] :
                              x \in {y \in ws : Touches(ops[y].c, k)}}]
        clients == {k[1] : k \in keys}
        LookOk(t, a, b, r) ==
            /\ Once(r) /\ {r[x][1] : x \in 1..Len(r)} \subseteq clients
            /\ \A c \in clients :
                 LET ks == {k \in keys : k[1] = c /\ Match(k[2], t)} IN
                 FairAnswer(Answers(r, c), ks, [k \in ks |-> Seen(writes[k], a, b)])
        forever == 1000000000
        left == [k \in keys |-> Seen(writes[k], forever, forever + 1)]
        \* after the end the lookups all see the same table; where there are too many tables that could be it, each
        \* lookup is explained on its own
        FinalOk == \A c \in clients :
            LET ks == {k \in keys : k[1] = c}
                Explains(vals) == \A x \in 1..Len(rec.fin) :
                     LET hit == {k \in ks : Match(k[2], rec.fin[x].t)} IN
                     FairAnswer(Answers(rec.fin[x].r, c), hit, [k \in hit |-> vals[k]])
            IN IF Cardinality({k \in ks : Cardinality(left[k]) > 1}) > 4 THEN Explains(left)
               ELSE \E pick \in Picks(ks, left) : Explains([k \in ks |-> {pick[k]}])
    IN
    /\ rec.end = "ok"
    /\ \A x \in 1..Len(ops) : IsLook(ops[x]) => LookOk(ops[x].c[2], ops[x].b, ops[x].e, ops[x].r)
    /\ \A x \in 1..Len(rec.fin) : Once(rec.fin[x].r) /\ {rec.fin[x].r[y][1] : y \in 1..Len(rec.fin[x].r)} \subseteq clients
    /\ FinalOk
    /\ \A x \in 1..Len(rec.swept) : rec.swept[x].r = <<>>

\* do any two calls overlap?
Bites(rec) == \E x, y \in 1..Len(rec.ops) : x # y /\ rec.ops[x].b < rec.ops[y].e /\ rec.ops[y].b < rec.ops[x].e
Canary(rec) == "canary" \in DOMAIN rec

Init == i = 1
Next == i < Len(Trace) /\ i' = i + 1
Conforms ==
    LET rec == Trace[i] IN
    /\ Holds(rec) # Canary(rec) \/ (PrintT(<<"BROKEN", i>>) /\ FALSE)
    /\ Bites(rec) /\ ~Canary(rec) => TLCSet(1, TLCGet(1) + 1)
ASSUME TLCSet(1, 0)
Report == PrintT(<<"BITES", TLCGet(1)>>)
Spec == Init /\ [][Next]_i
=============================================================================

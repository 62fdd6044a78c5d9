---------------------------- MODULE TopicsTrace -----------------------------
(***************************************************************************)
(* Validates recorded sequential histories of the real topics table.  A    *)
(* step is a call, or a lookup <<"look", topic, answers>> with answers     *)
(* <<client, <<QoS, flags>>>>, or <<"died", why>>.                         *)
(***************************************************************************)
EXTENDS Topics, Json, IOUtils

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Prop == IOEnv.PROP
VARIABLES s, j, tab

LookT01(t, r) == /\ {r[x][1] : x \in 1..Len(r)} = Audience(tab, t)
                 /\ Len(r) = Cardinality({r[x][1] : x \in 1..Len(r)})
LookT02(t, r) == LookT01(t, r) /\ \A x \in 1..Len(r) :
                    LET h == Hits(tab, r[x][1], t) IN Cardinality(h) = 1 => \A k \in h : r[x][2] = tab[k]
LookT03(t, r) == \A x \in 1..Len(r) :
                    /\ \A y \in 1..Len(r) : r[x][1] = r[y][1] => x = y
                    /\ LET h == Hits(tab, r[x][1], t) IN h # {} => FairMerge(r[x][2], {tab[k] : k \in h})
Fine(step) == CASE step[1] = "look" -> (CASE Prop = "T01" -> LookT01(step[2], step[3])
                                          [] Prop = "T02" -> LookT02(step[2], step[3])
                                          [] Prop = "T03" -> LookT03(step[2], step[3]))
                [] step[1] = "died" -> FALSE
                [] OTHER -> TRUE
Bites(step) == step[1] = "look" /\
    CASE Prop = "T01" -> tab # EmptyTable
      [] Prop = "T02" -> step[3] # <<>>
      [] Prop = "T03" -> \E x \in 1..Len(step[3]) : Cardinality(Hits(tab, step[3][x][1], step[2])) > 1

Init == s = 1 /\ j = 0 /\ tab = EmptyTable
Steps(x) == Trace[x].steps
Next == IF j < Len(Steps(s))
        THEN /\ j' = j + 1 /\ s' = s
             /\ tab' = IF Steps(s)[j'][1] \in {"sub", "unsub", "all"} THEN Do(tab, Steps(s)[j']) ELSE tab
        ELSE /\ s < Len(Trace) /\ s' = s + 1 /\ j' = 0 /\ tab' = EmptyTable
\* a falsified history has its lie in its last step
Lies == "canary" \in DOMAIN Trace[s] /\ j = Len(Steps(s))
Conforms ==
    j > 0 => LET step == Steps(s)[j] IN
             /\ Fine(step) # Lies \/ (PrintT(<<"BROKEN", s, j>>) /\ FALSE)
             /\ Bites(step) => TLCSet(1, TLCGet(1) + 1)
ASSUME TLCSet(1, 0)
Report == PrintT(<<"BITES", TLCGet(1)>>)
Spec == Init /\ [][Next]_<<s, j, tab>>
View == <<s, j>>
=============================================================================

--------------------------- MODULE BrokerScripts ----------------------------
(***************************************************************************)
(* Building blocks of scripts for the real broker.  A script is            *)
(*   [cfg, phases], a phase [do, live, ends, clients, looks, ...]:         *)
(* who does what, and what the specification expects when all has settled  *)
(* (who is live, whom the broker has ended, the list of clients, who is    *)
(* subscribed to some topics), so that the driver knows what to wait for.  *)
(***************************************************************************)
EXTENDS Broker, SequencesExt

Config(max, strict, queue) == [queue |-> queue, max |-> max, keep |-> 60, strict |-> strict, noise |-> TRUE]
Usual == Config(65536, FALSE, 65536)

Open(enc) == [a |-> "open", enc |-> enc]
OpenFaulty(fault, at) == [a |-> "open", enc |-> TRUE, hs |-> fault, at |-> at]
Send(ps) == [a |-> "send", ps |-> ps, cut |-> 0]
SendCut(ps, cut) == [a |-> "send", ps |-> ps, cut |-> cut]
Pause == [a |-> "pause"]
Resume == [a |-> "resume"]
Flooding(p, n, per) == [a |-> "flood", p |-> p, n |-> n, per |-> per]
\* (while no one else sends)
Bulk(p, n, per) == Flooding(p, n, per) @@ [bulk |-> TRUE]
Close(how) == [a |-> "close", how |-> how]
By(c, as) == [c |-> c, as |-> as]

Connect(id) == [t |-> "connect", id |-> id, props |-> <<>>]
ConnectP(id, ps) == [t |-> "connect", id |-> id, props |-> ps]
Pub(topic, name, n) == [t |-> "pub", fl |-> 0, topic |-> topic, props |-> <<>>, pay |-> <<name, n>>]
PubP(topic, name, n, ps) == [Pub(topic, name, n) EXCEPT !.props = ps]
Sub1(pid, f, o) == [t |-> "sub", pid |-> pid, props |-> <<>>, fs |-> <<<<f, o>>>>]
SubN(pid, fs) == [t |-> "sub", pid |-> pid, props |-> <<>>, fs |-> fs]
Raw(as, hex) == [t |-> "raw", as |-> as, hex |-> hex, n |-> Len(hex) \div 2]
\* the payload format of an empty name is an empty payload
Plain == 32
NotMine == 36

\* (a flood of messages changes no state)
Brief(as) == SelectSeq(as, LAMBDA a : a.a # "flood")
RECURSIVE RunItems(_, _, _, _)
RunItems(cfg, S, c, its) == IF its = <<>> THEN S ELSE RunItems(cfg, Step(cfg, S, c, its[1]).S, c, Tail(its))
RECURSIVE RunDo(_, _, _, _)
RunDo(cfg, S, do, k) ==
    IF k > Len(do) THEN S ELSE RunDo(cfg, RunItems(cfg, S, do[k].c, Items(Brief(do[k].as), 1)), do, k + 1)

IdsOf(S, topic) == {S.conns[x[1]].id : x \in {x \in DOMAIN S.subs : Match(x[2], topic)}}

\* who reads nothing, and who is in the middle of a packet (and cannot be asked anything)
LastOf(as, kinds) == LET ks == {k \in 1..Len(as) : as[k].a \in kinds} IN
                     IF ks = {} THEN "" ELSE as[CHOOSE k \in ks : \A j \in ks : j <= k].a
Pausing(Q, do) == (Q \cup {do[k].c : k \in {k \in 1..Len(do) : LastOf(do[k].as, {"pause", "resume"}) = "pause"}})
                  \ {do[k].c : k \in {k \in 1..Len(do) : LastOf(do[k].as, {"pause", "resume"}) = "resume"}}
IsPart(it) == it[1] = "p" /\ it[2].t = "raw" /\ it[2].as = "part"
Muting(M, do) == M \cup {do[k].c : k \in {k \in 1..Len(do) : \E x \in {Items(Brief(do[k].as), 1)} : \E j \in 1..Len(x) : IsPart(x[j])}}

\* Q0, Q: who reads nothing before and in the phase.  The end of a connection that reads nothing shows when one writes
\* to it (dead)
Phase0(cfg, S, do, topics, Q0, Q, M) ==
    LET T == RunDo(cfg, S, do, 1)
        Ended == {c \in DOMAIN T.conns : T.conns[c].st = "over" /\ T.conns[c].by = "broker"}
        Before == {c \in DOMAIN S.conns : S.conns[c].st = "over"} IN
    [do |-> do,
     live |-> SetToSeq(Live(T) \ (Q \cup M)),
     quiet |-> SetToSeq(Q),
     ends |-> SetToSeq((Ended \ Q) \ (Before \ Q0)),
     dead |-> SetToSeq((Ended \cap Q) \ Before),
     clients |-> SetToSeq({T.conns[c].id : c \in Live(T)}),
     looks |-> [k \in 1..Len(topics) |-> <<topics[k], SetToSeq(IdsOf(T, topics[k]))>>]]
\* a sequence of phases from their actions
RECURSIVE Phases(_, _, _, _, _, _)
Phases(cfg, S, dos, topics, Q0, M0) ==
    IF dos = <<>> THEN <<>>
    ELSE LET Q == Pausing(Q0, dos[1])
             M == Muting(M0, dos[1])
         IN <<Phase0(cfg, S, dos[1], topics, Q0, Q, M)>> \o Phases(cfg, RunDo(cfg, S, dos[1], 1), Tail(dos), topics, Q, M)
Script(cfg, dos, topics) == [cfg |-> cfg, phases |-> Phases(cfg, Start, dos, topics, {}, {})]
RECURSIVE RunAll(_, _, _)
RunAll(c, T, dos) == IF dos = <<>> THEN T ELSE RunAll(c, RunDo(c, T, dos[1], 1), Tail(dos))
=============================================================================

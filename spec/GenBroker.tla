----------------------------- MODULE GenBroker ------------------------------
(***************************************************************************)
(* Explores the broker specification over small menus of actions, one      *)
(* family of them at a time, and writes one script for every transition:   *)
(* the actions of a shortest path to its source, each settled before the   *)
(* next, its own, and finally messages from everyone to everyone.          *)
(***************************************************************************)
EXTENDS BrokerScripts, Json, IOUtils

Family == IOEnv.FAMILY
Thorough == IOEnv.TIER = "thorough"
VARIABLES cfg, S, hist
vars == <<cfg, S, hist>>

T1 == <<"t", "x">>
T2 == <<"t", "y">>
T3 == <<"u">>
Topics == <<T1, T2, T3>>

\* --- deliveries and subscriptions: B01, B04, B08 -------------------------
Everyone == << By(1, <<Open(FALSE), Send(<<Connect("a")>>)>>), By(2, <<Open(FALSE), Send(<<Connect("A")>>)>>),
               By(3, <<Open(TRUE), Send(<<Connect("c")>>)>>) >>
DeliverSubs ==
    {<<c, SubN(7, <<<<f, o>>>>)>> : c \in {1} \cup (IF Thorough THEN {3} ELSE {}),
                                    f \in {T1, <<"t", "+">>, <<"#">>}, o \in {Plain, NotMine, 33, 16, 44}}
    \cup {<<3, Sub1(8, T1, NotMine)>>, <<3, Sub1(8, <<"t", "#">>, Plain)>>,
          <<1, SubN(9, <<<<T1, Plain>>, <<T2, 34>>, <<T1, NotMine>>>>)>>,
          <<1, SubN(10, <<<<T2, 33>>, <<T1, 0>>, <<T3, Plain>>>>)>>}
DeliverActions == {<<By(x[1], <<Send(<<x[2]>>)>>)>> : x \in DeliverSubs}
DeliverStart == {<<Usual, <<Everyone>>>>}

\* --- permeability: B05 ---------------------------------------------------
Four == << By(1, <<Open(FALSE), Send(<<Connect("a")>>)>>), By(2, <<Open(TRUE), Send(<<Connect("b")>>)>>),
           By(3, <<Open(FALSE), Send(<<Connect("c")>>)>>), By(4, <<Open(TRUE), Send(<<Connect("d")>>)>>) >>
PermActions == {<<By(c, <<Send(<<Sub1(7, f, o)>>)>>)>> : c \in 1..4, f \in {T1} \cup (IF Thorough THEN {<<"t", "#">>} ELSE {}), o \in {Plain, NotMine}}
PermStart == {<<Config(65536, st, 65536), <<Four>>>> : st \in BOOLEAN}

\* --- sessions: B06, B07, B11, B12, B13 -----------------------------------
\* a new connection is the next one that has not been used
New == Cardinality(DOMAIN S.conns) + 1
Connects == {Connect("a"), Connect("b"), Connect(""), ConnectP("a", <<<<39, 1000>>, <<17, "7">>, <<38, "u">>>>)}
BadFirst == { [Connect("a") EXCEPT !.t = "connect"] @@ [user |-> "u"],
              Connect("a") @@ [pass |-> "p"], Connect("a") @@ [will |-> "w"], Connect("a") @@ [clean |-> FALSE],
              ConnectP("a", <<<<21, "m">>>>),
              Raw("bad", "100e00044d5154540402003c00000161"), Sub1(7, T1, Plain), Pub(T1, "early", 5),
              Raw("odd", "c000") }
SessionOpens == {<<By(New, <<Open(e), Send(<<p>>)>>)>> : e \in BOOLEAN, p \in Connects}
                \cup {<<By(New, <<Open(FALSE), Send(<<p>>)>>)>> : p \in BadFirst}
                \cup {<<By(New, <<Open(TRUE), Send(<<p>>)>>)>> : p \in {Connect("a") @@ [user |-> "u"], Sub1(7, T1, Plain)}}
                \cup {<<By(New, <<Open(FALSE)>>)>>,
                      \* packets behind the CONNECT
                      <<By(New, <<Open(FALSE), Send(<<Connect("a"), Sub1(7, T1, Plain)>>)>>)>>,
                      <<By(New, <<Open(FALSE), Send(<<Connect("") @@ [user |-> "u"], Sub1(7, T1, Plain), Pub(T1, "behind", 6)>>)>>)>>}
SessionEach(c) == {<<By(c, <<Send(<<Sub1(7, T1, Plain)>>)>>)>>, <<By(c, <<Send(<<Connect("a")>>)>>)>>,
                   <<By(c, <<Send(<<Raw("bad", "3002ffff")>>)>>)>>}
                  \cup {<<By(c, <<Close(how)>>)>> : how \in {"fin", "rst", "half"}}
SessionOn(c) == IF S.conns[c].st = "live" THEN SessionEach(c)
                ELSE IF S.conns[c].st = "tcp" THEN {<<By(c, <<Send(<<Connect("a")>>)>>)>>, <<By(c, <<Send(<<Sub1(7, T1, Plain)>>)>>)>>,
                                                     <<By(c, <<Close("fin")>>)>>}
                ELSE {}
SessionActions == (IF New <= (IF Thorough THEN 4 ELSE 3) THEN SessionOpens ELSE {})
                  \cup UNION {SessionOn(c) : c \in DOMAIN S.conns}
SessionStart == {<<Usual, <<>>>>}

\* --- requests that are refused: B09 --------------------------------------
Two == << By(1, <<Open(FALSE), Send(<<Connect("a"), Sub1(7, T1, Plain)>>)>>),
          By(2, <<Open(TRUE), Send(<<Connect("b"), Sub1(7, T1, Plain)>>)>>),
          By(3, <<Open(FALSE), Send(<<Connect("c"), Sub1(7, <<"t", "#">>, NotMine)>>)>>) >>
Odd == { Raw("odd", "c000"), Raw("odd", "d000"),                             \* PINGREQ, PINGRESP
         Raw("odd", "a209000100000474" \o "2f78" \o "79"),                   \* UNSUBSCRIBE t/xy
         Raw("odd", "e0020000"), Raw("odd", "f0020000"),                     \* DISCONNECT, AUTH
         Raw("odd", "400400010000"), Raw("odd", "500400010000"),             \* PUBACK, PUBREC
         Raw("odd", "620400010000"), Raw("odd", "700400010000"),             \* PUBREL, PUBCOMP
         Raw("odd", "2003000000"), Raw("odd", "900400010000"), Raw("odd", "b00400010000"),
         [Pub(T1, "q1", 5) EXCEPT !.fl = 2], [Pub(T1, "q2", 5) EXCEPT !.fl = 4],
         [Pub(T1, "dup", 5) EXCEPT !.fl = 10], [Pub(T1, "ret", 5) EXCEPT !.fl = 1],
         PubP(T1, "exp", 5, <<<<2, "9">>>>), PubP(T1, "al", 5, <<<<35, 3>>>>), PubP(T1, "id", 5, <<<<11, 3>>>>),
         PubP(T1, "mix", 5, <<<<38, "u">>, <<2, "9">>, <<8, "r">>>>),
         [SubN(7, <<<<T2, Plain>>, <<T3, NotMine>>>>) EXCEPT !.props = <<<<11, 5>>>>],
         [Sub1(7, T1, NotMine) EXCEPT !.props = <<<<38, "u">>, <<11, 300>>>>],
         Connect("z"), Connect("b") }
RefuseActions == {<<By(c, <<Send(<<p>>)>>)>> : c \in {x \in 1..2 : x \in Live(S)}, p \in Odd}
RefuseStart == {<<Usual, <<Two>>>>}

\* --- sizes: B14, B15 -----------------------------------------------------
\* a message of exactly n bytes
Sized(topic, name, n) ==
    LET h == 2 + TopicLen(topic) + 1
        body == CHOOSE b \in {n - 2, n - 3, n - 4, n - 5} : Framed(b) = n
    IN Pub(topic, name, body - h)
Fitting(n) == \E b \in {n - 2, n - 3, n - 4, n - 5} : Framed(b) = n
SizeMax == 300
Small == {40, 127, 131, 299}
SizeStart == {<<Config(SizeMax, FALSE, 65536),
                << << By(1, <<Open(FALSE), Send(<<ConnectP("a", <<<<39, m>>>>), Sub1(7, T1, Plain)>>)>>),
                      By(2, <<Open(TRUE), Send(<<ConnectP("b", <<<<39, m>>>>), Sub1(7, T1, Plain)>>)>>),
                      By(3, <<Open(FALSE), Send(<<Connect("c"), Sub1(7, T1, Plain)>>)>>),
                      By(4, <<Open(TRUE), Send(<<Connect("d"), Sub1(7, T1, Plain)>>)>>) >> >>>> : m \in Small \cup {1000}}
Sizes == UNION {{m - 1, m, m + 1} : m \in Small \cup {SizeMax}}
Long(n) == "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"
SizeActions ==
    {<<By(c, <<SendCut(<<Sized(T1, "s" \o ToString(n), n)>>, cut)>>)>> :
        c \in {x \in {1, 4} : x \in Live(S)}, n \in {n \in Sizes : Fitting(n) /\ n > 14}, cut \in {0, 7}}
    \cup {<<By(c, <<Send(<<[t |-> "blob", first |-> f, n |-> n]>>)>>)>> : c \in {x \in {1, 4} : x \in Live(S)}, f \in {48, 130}, n \in {SizeMax - 2, 5000, 70000}}
    \cup {<<By(5, <<Open(e), Send(<<ConnectP("e", <<<<38, SubSeq(Long(0) \o Long(0) \o Long(0), 1, n)>>>>)>>)>>)>> :
              e \in BOOLEAN, n \in {x \in {SizeMax - 22, SizeMax - 21, SizeMax - 20, SizeMax - 19, SizeMax - 18} : 5 \notin DOMAIN S.conns}}

\* -------------------------------------------------------------------------
Starts == CASE Family = "deliver" -> DeliverStart
            [] Family = "perm" -> PermStart
            [] Family = "session" -> SessionStart
            [] Family = "refuse" -> RefuseStart
            [] Family = "size" -> SizeStart
Actions == CASE Family = "deliver" -> DeliverActions
             [] Family = "perm" -> PermActions
             [] Family = "session" -> SessionActions
             [] Family = "refuse" -> RefuseActions
             [] Family = "size" -> SizeActions
Depth == CASE Family = "session" -> (IF Thorough THEN 6 ELSE 4)
           [] Family = "size" -> 3
           [] Family = "refuse" -> 3
           [] OTHER -> 30

Init == \E x \in Starts : cfg = x[1] /\ hist = x[2] /\ S = RunAll(x[1], Start, x[2])
Next == \E do \in Actions :
          /\ S' = RunDo(cfg, S, do, 1)
          /\ hist' = Append(hist, do)
          /\ cfg' = cfg
View == <<cfg, S>>
Short == Len(hist) < Depth
\* everyone sends a message to every topic
Battery(T) == LET q == SetToSeq(Live(T)) IN
              [k \in 1..Len(q) |-> By(q[k], <<Send([j \in 1..Len(Topics) |->
                  Pub(Topics[j], "b" \o ToString(q[k]) \o "." \o ToString(j), 8)])>>)]
\* the last word belongs to what has just changed
Emit == LET b == Battery(S') IN
        PrintT("@" \o ToJson(Script(cfg, IF b = <<>> THEN hist' ELSE Append(hist', b), Topics)))
Spec == Init /\ [][Next]_vars
Inv == UniqueIds(S) /\ OwnedSubs(S)
=============================================================================

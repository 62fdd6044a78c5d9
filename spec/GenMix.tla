------------------------------- MODULE GenMix -------------------------------
(***************************************************************************)
(* Random scripts in which much happens at once: every connection that     *)
(* acts in a phase does so concurrently with the others.  What must hold   *)
(* when a phase has settled does not depend on the order (identifiers are  *)
(* taken over by one connection at a time, except in races).               *)
(* Every operator that draws has the number of the script as a parameter,  *)
(* so that TLC does not take it for a constant.                            *)
(***************************************************************************)
EXTENDS BrokerScripts, Json, IOUtils, Randomization

Kind == IOEnv.KIND
RECURSIVE Number(_, _)
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Number(t, k) == IF k = 0 THEN 0 ELSE 10 * Number(t, k - 1) + ((CHOOSE d \in 1..10 : Digits[d] = SubSeq(t, k, k)) - 1)
Scripts == LET t == IOEnv.N IN Number(t, Len(t))
VARIABLES drawn

Pick(i, X) == RandomElement(X)
Chance(i, percent) == RandomElement(1..100) <= percent

Topics == {<<"t", "x">>, <<"t", "y">>, <<"u">>, <<"t", "x", "z">>, <<"", "a">>, <<"$s", "x">>, <<"t">>}
Filters == {<<"t", "x">>, <<"t", "+">>, <<"t", "#">>, <<"#">>, <<"+", "x">>, <<"u">>, <<"+", "+", "z">>, <<"", "+">>,
            <<"$s", "#">>, <<"t", "y">>, <<"+">>, <<"t">>, <<"t", "x", "#">>}
Looked == << <<"t", "x">>, <<"t", "y">>, <<"u">>, <<"$s", "x">> >>
Ids == <<"a", "A", "aa", "b", "B", "a b", "ab", "a/b", "#", "+">>
Options(i) == IF Chance(i, 25) THEN Pick(i, {33, 16, 2, 38, 0}) ELSE Pick(i, {32, 36, 40, 44})
Queue(i) == Pick(i, {0, 1, 400, 1000, 65536})
PropSet(i) == IF Chance(i, 60) THEN <<>>
              ELSE Pick(i, { <<<<38, "a">>>>, <<<<38, "b">>, <<38, "a">>, <<38, "b">>>>, <<<<3, "text">>, <<1, 1>>>>, <<<<9, "corr">>, <<8, "re/ply">>>>,
                             <<<<38, "z">>, <<9, "">>, <<38, "a">>, <<3, "">>, <<1, 0>>, <<8, "r">>>> })
PaySize(i, max) == IF Chance(i, 85) THEN Pick(i, 12..40) ELSE IF max < 2000 THEN Pick(i, (max - 40)..(max + 10)) ELSE Pick(i, {100, 127, 200, 2000, 16400})
\* a message whose name tells who sent it where
Message(i, c, ph, k, max) == PubP(Pick(i, Topics), "m" \o ToString(c) \o "." \o ToString(ph) \o "." \o ToString(k), PaySize(i, max), PropSet(i))
RECURSIVE SomeFilters(_, _)
SomeFilters(i, k) == IF k = 0 THEN <<>> ELSE <<<<Pick(i, Filters), Options(i)>>>> \o SomeFilters(i, k - 1)
Subscribe(i) == SubN(Pick(i, 1..40000), TLCEval(SomeFilters(i, IF Chance(i, 65) THEN 1 ELSE Pick(i, {2, 2, 3, 3, 4, 5, 8}))))
CutMode(i) == IF Chance(i, 60) THEN 0 ELSE Pick(i, {1, 2, 3, 7, 20, 9999})

\* packets of which the first ones may be anything, and none too large for the broker
RECURSIVE Packets(_, _, _, _, _, _)
Packets(i, c, ph, k, m, max) ==
    IF k > m THEN <<>>
    ELSE LET p == IF Chance(i, 70) THEN Message(i, c, ph, k, max) ELSE Subscribe(i)
             q == TLCEval(IF Size(p) > max THEN Pub(<<"u">>, "small" \o ToString(c) \o "." \o ToString(ph) \o "." \o ToString(k), 20) ELSE p)
         IN <<q>> \o Packets(i, c, ph, k + 1, m, max)
Bad == { Raw("bad", "3002ffff"), Raw("bad", "0000"), Raw("bad", "f1020000"), Raw("bad", "8206000100000161"), Raw("bad", "c100"),
         Raw("bad", "82050001000000"), Raw("bad", "30ffffffff7f"), Raw("bad", "3605000161000000"), [t |-> "blob", first |-> 48, n |-> 100],
         [t |-> "blob", first |-> 130, n |-> 33] }
Unsupported == { Raw("odd", "c000"), Raw("odd", "e0020000"), Raw("odd", "a209000100000474" \o "2f78" \o "79"),
                 [Pub(<<"t", "x">>, "q1", 5) EXCEPT !.fl = 2], [Pub(<<"t", "x">>, "ret", 5) EXCEPT !.fl = 1],
                 PubP(<<"u">>, "exp", 5, <<<<2, "9">>>>), [Sub1(7, <<"#">>, 32) EXCEPT !.props = <<<<11, 5>>>>] }
\* the end of a connection
Ending(i) == CASE Pick(i, 1..5) = 1 -> <<Close("fin")>>
               [] Pick(i, 1..4) = 1 -> <<Close("rst")>>
               [] Pick(i, 1..3) = 1 -> <<Close("half")>>
               [] Pick(i, 1..2) = 1 -> <<Send(<<Pick(i, Bad)>>)>>
               [] OTHER -> <<Send(<<Pick(i, Unsupported)>>)>>

Opening(i, id, max, ph, c, chatty) ==
    LET enc == Chance(i, 45)
        big == IF Chance(i, 25) THEN <<<<39, Pick(i, {60, 80, 150, 1000, 100000})>>>> ELSE <<>>
        ps == <<ConnectP(id, IF Chance(i, 20) THEN big \o <<<<38, "u">>>> ELSE big)>>
              \o (IF chatty THEN Packets(i, c, ph, 1, Pick(i, 0..3), max) ELSE <<>>)
    IN TLCEval(<<Open(enc), SendCut(ps, CutMode(i))>>)
\* sends numbered from..from+k-1
Talk(i, c, ph, from, k, max) == <<SendCut(Packets(i, c, ph, from, from + k - 1, max), CutMode(i))>>
Talking(i, c, ph, max, percent) ==
    LET k == Pick(i, 1..6)
        l == Pick(i, 0..4)
        e == IF Chance(i, percent) THEN Ending(i) ELSE <<>>
    IN TLCEval(Talk(i, c, ph, 1, k, max) \o (IF l = 0 THEN <<>> ELSE Talk(i, c, ph, 10, l, max)) \o e)

Cfg(i) == TLCEval(Config(Pick(i, {250, 65536, 65536, 200000}), Chance(i, 40), Queue(i)))
NextConn(S, do) == Cardinality(DOMAIN S.conns) + Cardinality({k \in 1..Len(do) : do[k].c \notin DOMAIN S.conns}) + 1

\* --- anything goes -------------------------------------------------------
\* every live connection acts with some chance; some identifiers are taken over, some new ones come
RECURSIVE Acts(_, _, _, _, _, _, _)
Acts(i, cfg, S, ph, cs, percent, k) ==
    IF k > Len(cs) THEN <<>>
    ELSE (IF Chance(i, 75) THEN <<By(cs[k], Talking(i, cs[k], ph, cfg.max, percent))>> ELSE <<>>)
         \o Acts(i, cfg, S, ph, cs, percent, k + 1)
Takeover(i, cfg, S, ph, do, percent) ==
    IF Live(S) = {} \/ ~Chance(i, percent) THEN <<>>
    ELSE LET c == NextConn(S, do)
             old == Pick(i, Live(S)) IN
         IF SubSeq(S.conns[old].id, 1, 1) = "?" THEN <<>>
         ELSE <<By(c, Opening(i, S.conns[old].id, cfg.max, ph, c, TRUE))>>
Newcomer(i, cfg, S, ph, do, percent) ==
    IF ~Chance(i, percent) THEN <<>>
    ELSE LET c == NextConn(S, do) IN <<By(c, Opening(i, IF Chance(i, 30) THEN "" ELSE "n" \o ToString(c), cfg.max, ph, c, TRUE))>>
MixPhase(i, cfg, S, ph, ends, take) ==
    LET a == TLCEval(Acts(i, cfg, S, ph, SetToSeq(Live(S)), ends, 1))
        b == TLCEval(Takeover(i, cfg, S, ph, a, take))
        d == TLCEval(Newcomer(i, cfg, S, ph, a \o b, take))
    IN TLCEval(a \o b \o d)
RECURSIVE MixPhases(_, _, _, _, _, _, _)
MixPhases(i, cfg, S, ph, k, ends, take) ==
    IF k = 0 THEN <<>>
    ELSE LET do == MixPhase(i, cfg, S, ph, ends, take)
             T == RunDo(cfg, S, do, 1) IN
         <<do>> \o MixPhases(i, cfg, T, ph + 1, k - 1, ends, take)
RECURSIVE Openings(_, _, _, _)
Openings(i, cfg, k, m) == IF k > m THEN <<>>
                          ELSE <<By(k, Opening(i, IF Chance(i, 10) THEN "" ELSE Ids[k], cfg.max, 1, k, TRUE))>> \o Openings(i, cfg, k + 1, m)
Battery(T) == LET q == SetToSeq(Live(T)) IN
              TLCEval([k \in 1..Len(q) |-> By(q[k], <<Send(<<Pub(<<"t", "x">>, "b" \o ToString(q[k]) \o ".1", 8),
                                                             Pub(<<"u">>, "b" \o ToString(q[k]) \o ".2", 8)>>)>>)])
Whole(cfg, dos) == LET b == Battery(RunAll(cfg, Start, dos)) IN
                   Script(cfg, IF b = <<>> THEN dos ELSE Append(dos, b), Looked)
Mixed(i, ends, take) ==
    LET cfg == Cfg(i)
        do == TLCEval(Openings(i, cfg, 1, Pick(i, 2..5)))
        dos == TLCEval(<<do>> \o MixPhases(i, cfg, RunDo(cfg, Start, do, 1), 2, Pick(i, 1..3), ends, take))
    IN Whole(cfg, dos)


\* --- many messages at once ------------------------------------------------
Small == <<<<"t", "x">>, <<"t", "y">>, <<"u">>>>
SmallFilters == {<<"t", "x">>, <<"t", "+">>, <<"#">>, <<"u">>, <<"t", "y">>}
RECURSIVE Floods(_, _, _, _)
Floods(i, cs, k, n) ==
    IF k > Len(cs) THEN <<>>
    ELSE LET c == cs[k]
             one == Flooding(Pub(Small[1 + (c % 3)], "f" \o ToString(c), 12 + c), Pick(i, (n \div 2)..n), Pick(i, {1, 2, 7, 50}))
             two == Flooding(Pub(Small[1 + ((c + 1) % 3)], "g" \o ToString(c), 12 + c), Pick(i, 3..10), Pick(i, {1, 3, 7}))
             sub == Send(<<SubN(100 + c, <<<<Pick(i, SmallFilters), Pick(i, {32, 36})>>>>)>>)
         IN <<By(c, TLCEval(<<one>> \o (IF Chance(i, 60) THEN <<sub, two>> ELSE <<>>)))>> \o Floods(i, cs, k + 1, n)
RECURSIVE Members(_, _, _, _)
Members(i, k, m, chance) ==
    IF k > m THEN <<>>
    ELSE <<By(k, TLCEval(<<Open(Chance(i, 40)),
                   Send(<<Connect(Ids[k])>> \o (IF Chance(i, chance) THEN <<SubN(k, <<<<Pick(i, SmallFilters), Pick(i, {32, 36})>>>>)>> ELSE <<>>))>>))>>
         \o Members(i, k + 1, m, chance)
Flooded(i, queue, n) ==
    LET cfg == TLCEval(Config(65536, Chance(i, 25), queue))
        do == TLCEval(Members(i, 1, Pick(i, 3..5), 85))
    IN Whole(cfg, <<do, TLCEval(Floods(i, TLCEval(SetToSeq(Live(RunDo(cfg, Start, do, 1)))), 1, n))>>)

\* --- several connections at once for one identifier ----------------------
RaceTopic(c) == <<"r", ToString(c)>>
RECURSIVE Racers(_, _, _)
Racers(i, k, m) ==
    IF k > m THEN <<>>
    ELSE LET ps == <<Connect("a")>>
                   \o (IF Chance(i, 80) THEN <<SubN(20 + k, <<<<RaceTopic(k), 32>>>>)>> ELSE <<>>)
                   \o (IF Chance(i, 50) THEN <<Pub(<<"u">>, "r" \o ToString(k), 9)>> ELSE <<>>)
         IN <<By(k, TLCEval(<<Open(Chance(i, 40)), SendCut(ps, Pick(i, {0, 0, 0, 7}))>>))>> \o Racers(i, k + 1, m)
RaceScript(i) ==
    LET cfg == TLCEval(Config(65536, FALSE, Pick(i, {1, 65536})))
        holder == Chance(i, 70)
        \* someone who watches, and maybe someone who has the identifier
        first == TLCEval(<<By(1, <<Open(FALSE), Send(<<Connect("w"), Sub1(7, <<"u">>, 32)>>)>>)>>
                  \o (IF holder THEN <<By(2, <<Open(Chance(i, 50)), Send(<<Connect("a"), Sub1(8, <<"h">>, 32), Sub1(9, <<"r", "+">>, 36)>>)>>)>> ELSE <<>>))
        from == IF holder THEN 3 ELSE 2
        m == TLCEval(from + Pick(i, 1..3))
        racers == TLCEval(Racers(i, from, m))
        S1 == RunDo(cfg, Start, first, 1)
        all == [k \in 1..(m - from + 1) |-> from + k - 1]
        after == <<By(1, <<Send([k \in 1..(m - from + 2) |->
                     IF k = 1 THEN Pub(<<"h">>, "h", 8) ELSE Pub(RaceTopic(from + k - 2), "s" \o ToString(k), 8)])>>)>>
        ph(do, old, new, T) == [do |-> do, live |-> <<1>> \o old, quiet |-> <<>>, clients |-> <<"w", "a">>, looks |-> <<>>,
                                ends |-> IF new # <<>> /\ holder THEN <<2>> ELSE <<>>, race |-> new]
    IN [cfg |-> cfg, phases |-> <<Phase0(cfg, Start, first, <<>>, {}, {}, {}), ph(racers, <<>>, all, S1), ph(after, <<>>, <<>>, S1)>>]

\* --- what a CONNACK says -------------------------------------------------
Maybe(i, percent, x) == IF Chance(i, percent) THEN <<x>> ELSE <<>>
ConnectProps(i) ==
    TLCEval(Maybe(i, 40, <<17, Pick(i, {"0", "1", "7", "65536", "4294967295"})>>)
            \o Maybe(i, 40, <<33, Pick(i, {1, 2, 255, 256, 65535})>>)
            \o Maybe(i, 35, <<39, Pick(i, {50, 80, 127, 128, 1000, 2147483647})>>)
            \o Maybe(i, 30, <<34, Pick(i, {0, 1, 65535})>>) \o Maybe(i, 30, <<25, Pick(i, {0, 1})>>)
            \o Maybe(i, 30, <<23, Pick(i, {0, 1})>>)
            \o Maybe(i, 30, <<38, "u">>) \o Maybe(i, 15, <<38, "">>))
FreshId(i, c) == CASE Pick(i, 1..4) = 1 -> ""
                   [] Pick(i, 1..6) = 1 -> "~e9~" \o ToString(c) \o "~1f600~"
                   [] Pick(i, 1..6) = 1 -> Pick(i, {" ", "$", "+/", "#", "?"}) \o ToString(c)
                   [] Pick(i, 1..4) = 1 -> ToString(c) \o "-a-rather-long-client-identifier-of-more-than-twenty-three-characters/with+odd#ones"
                   [] OTHER -> "c" \o ToString(c)
AsksTooMuch(i, p) ==
    LET x == TLCEval(RandomSubset(1 + Pick(i, 0..2), {"user", "pass", "will", "clean", "21", "22"})) IN
    TLCEval([p EXCEPT !.props = @ \o (IF "21" \in x THEN <<<<21, "m">>>> ELSE <<>>) \o (IF "22" \in x THEN <<<<22, "d">>>> ELSE <<>>)]
    @@ (IF "user" \in x THEN [user |-> "u"] ELSE << >>) @@ (IF "pass" \in x THEN [pass |-> "p"] ELSE << >>)
    @@ (IF "will" \in x THEN [will |-> "w"] ELSE << >>) @@ (IF "clean" \in x THEN [clean |-> FALSE] ELSE << >>))
RECURSIVE Knocks(_, _, _, _)
Knocks(i, k, m, percent) ==
    IF k > m THEN <<>>
    ELSE LET p == TLCEval(ConnectP(FreshId(i, k), ConnectProps(i)) @@ [keep |-> Pick(i, {0, 1, 60, 65535})])
             q == IF Chance(i, percent) THEN AsksTooMuch(i, p) ELSE p
         IN <<By(k, TLCEval(<<Open(Chance(i, 50)), SendCut(<<q>>, Pick(i, {0, 0, 1, 9999}))>>))>> \o Knocks(i, k + 1, m, percent)
ConnAckScript(i) ==
    LET cfg == TLCEval([Config(Pick(i, {300, 65536, 2147483647}), Chance(i, 50), Queue(i)) EXCEPT !.keep = Pick(i, {30, 60, 255, 256, 65535})])
        c2 == IF cfg.max > 1000000 THEN [cfg EXCEPT !.max = 1000000] ELSE cfg
    IN Whole(c2, TLCEval(<<TLCEval(Knocks(i, 1, 6, 25)), TLCEval(Knocks(i, 7, 12, 25))>>))

\* --- what a SUBACK says --------------------------------------------------
AllOptions == {o \in 0..63 : ~BadOptions(o)}
RECURSIVE AnyFilters(_, _)
AnyFilters(i, k) == IF k = 0 THEN <<>>
                    ELSE <<<<Pick(i, {<<"t", "x">>, <<"t", "+">>, <<"u">>, <<"#">>, <<"t", "y">>, <<"$share", "g", "u">>, <<"">>, <<"", "">>}),
                             IF Chance(i, 50) THEN Pick(i, {32, 36, 40, 44}) ELSE Pick(i, AllOptions)>>>> \o AnyFilters(i, k - 1)
BadSub(i) == CASE Pick(i, 1..4) = 1 -> SubN(9, <<>>)
               [] Pick(i, 1..3) = 1 -> SubN(9, <<<<<<"u">>, 32>>, <<<<"t", Pick(i, BadLevels)>>, 32>>>>)
               [] Pick(i, 1..2) = 1 -> SubN(9, <<<<<<"t", "#", "x">>, 32>>>>)
               [] OTHER -> SubN(9, <<<<<<"u">>, 32>>, <<<<"t", "x">>, Pick(i, {3, 48, 51, 64, 96, 160, 35})>>>>)
SubAckPhase(i, m, bad) ==
    TLCEval([c \in 1..m |-> TLCEval(By(c, TLCEval(<<SendCut(
        TLCEval(<<[SubN(Pick(i, {1, 2, 127, 128, 255, 256, 40000}), TLCEval(AnyFilters(i, Pick(i, 1..6)))) EXCEPT !.props = IF Chance(i, 20) THEN <<<<38, "p">>>> ELSE <<>>]>>
        \o (IF Chance(i, 30) THEN <<SubN(Pick(i, 300..400), TLCEval(AnyFilters(i, Pick(i, {1, 8, 130}))))>> ELSE <<>>)),
        CutMode(i))>> \o (IF c = bad THEN <<Send(<<BadSub(i)>>)>> ELSE <<>>))))])
SubAckScript(i) ==
    LET cfg == TLCEval(Config(Pick(i, {1500, 65536}), FALSE, Queue(i)))
        m == TLCEval(Pick(i, 1..3))
        open == TLCEval([c \in 1..m |-> TLCEval(By(c, <<Open(Chance(i, 40)), Send(<<Connect(Ids[c])>>)>>))])
        talk(k) == [c \in 1..m |-> By(c, <<Send([j \in 1..3 |-> Pub(Small[j], "v" \o ToString(k) \o "." \o ToString(c) \o "." \o ToString(j), 9)])>>)]
    IN Script(cfg, TLCEval(<<open, SubAckPhase(i, m, 0), talk(1), SubAckPhase(i, m, IF Chance(i, 50) THEN 1 ELSE 0), talk(2)>>), Looked)

\* --- what a message carries ----------------------------------------------
\* ~e9~ stands for the character U+00E9
Odd == <<<<"~e9~", 0 - 2>>, <<"~6f22~", 0 - 3>>, <<"~1f600~", 0 - 3>>, <<"~7ff~", 0 - 3>>, <<"~ffff~", 0 - 3>>, <<"plain", 0>>>>
ContentProps(i) ==
    TLCEval(Maybe(i, 40, <<1, Pick(i, {0, 1})>>) \o Maybe(i, 40, <<38, Pick(i, {"a", ""})>>) \o Maybe(i, 40, <<8, "re/ply">>)
            \o Maybe(i, 40, <<38, "b">>) \o Maybe(i, 40, <<9, Pick(i, {"", "c", "corr"})>>) \o Maybe(i, 40, <<3, Pick(i, {"", "text/plain"})>>)
            \o Maybe(i, 40, <<38, "a">>))
ContentSize(i, enc) == LET x == {0, 1, 2, 99, 107, 108, 109, 110, 111, 112, 115, 120, 125, 126, 127, 128, 129, 16360, 16365, 16370, 16371, 16372, 16380, 16384, 65000}
                       IN Pick(i, IF enc THEN x ELSE x \cup {65502, 65503, 65504, 65505, 65506, 65507, 65508, 65509, 65520, 65536, 100000, 1000000})
RECURSIVE ContentPackets(_, _, _, _, _)
ContentPackets(i, c, ph, enc, k) ==
    IF k = 0 THEN <<>>
    ELSE LET a == TLCEval(Odd[Pick(i, 1..6)])
             b == TLCEval(Odd[Pick(i, 1..6)])
             name == "m" \o ToString(c) \o "." \o ToString(ph) \o "." \o ToString(k)
             n == TLCEval(ContentSize(i, enc))
             n2 == IF n < Len(name) THEN Len(name) + n ELSE n
             \* a topic, and what its characters take beyond one byte each
             tx == TLCEval(<<<<<<"t", a[1]>>, a[2]>>, <<<<a[1], b[1]>>, a[2] + b[2]>>, <<<<"", "t", "">>, 0>>, <<<<"t">>, 0>>, <<<<"$SYS", "t">>, 0>>,
                             <<<<"t", "@9000", "x">>, 0>>>>[Pick(i, 1..6)])
             \* (what fits into a message of Noise)
             top == IF n > 30000 /\ enc /\ Len(tx[1]) = 3 THEN <<"t">> ELSE tx[1]
             xb == IF top = tx[1] THEN tx[2] ELSE 0
             ps == TLCEval(ContentProps(i))
             u == TLCEval(Odd[Pick(i, 1..6)])
             more == Chance(i, 40)
         IN <<TLCEval([PubP(top, name, n2, IF more THEN ps \o <<<<38, u[1]>>>> ELSE ps) EXCEPT !.t = "pub"]
                      @@ [xb |-> xb + (IF more THEN u[2] ELSE 0)])>>
            \o ContentPackets(i, c, ph, enc, k - 1)
ContentScript(i) ==
    LET cfg == TLCEval(Config(3000000, FALSE, Queue(i)))
        e == TLCEval([c \in 1..4 |-> Chance(i, 50)])
        open == [c \in 1..4 |-> By(c, <<Open(e[c]), Send(<<Connect(Ids[c]),
                     SubN(7, <<<<<<"#">>, 32>>>> \o (IF c = 1 THEN <<<<<<"$SYS", "+">>, 32>>, <<<<"t", "#">>, 36>>, <<<<"t", "@9000", "+">>, 32>>>> ELSE <<>>))>>)>>)]
        \* one without a payload
        bare(k) == TLCEval(Pick(i, 1..4))
        none(c, b) == TLCEval(IF c = b THEN <<PubP(Pick(i, {<<"t">>, <<"", "t">>, <<"t", "t", "t">>}), "", 0, ContentProps(i))>> ELSE <<>>)
        talk(k) == LET b == TLCEval(bare(k)) IN
                   TLCEval([c \in 1..4 |-> TLCEval(By(c, <<SendCut(TLCEval(none(c, b) \o ContentPackets(i, c, k, e[c], Pick(i, 1..3))), Pick(i, {0, 0, 1000, 30000}))>>))])
    IN Script(cfg, TLCEval(<<open, talk(2), talk(3)>>), <<>>)

\* --- topics of all shapes --------------------------------------------------
Words == {"", "", "a", "b", "A", " ", "a b", "$", "$a", "$SYS", "~e9~", "~65e5~~672c~", "~1f600~", ".", "-", "%2F", "a1", "0", "nul", "~7f0~x",
          "a-level-that-is-quite-long-so-that-it-fits-into-no-small-buffer-that-there-might-be-anywhere-at-all"}
RECURSIVE Shape(_, _)
Shape(i, k) == IF k = 0 THEN <<>> ELSE <<Pick(i, Words)>> \o Shape(i, k - 1)
\* (a topic has at least one character)
AnyTopic(i) == LET t == TLCEval(Shape(i, Pick(i, {1, 1, 2, 2, 3, 3, 4, 5, 6, 12}))) IN IF t = <<"">> THEN <<"", "">> ELSE t
\* a little different
Changed(i, t) == LET k == TLCEval(Pick(i, 1..Len(t)))
                     c == TLCEval(Pick(i, 1..6))
                     u == TLCEval(CASE c = 1 -> Append(t, "") [] c = 2 -> <<"">> \o t [] c = 3 -> SubSeq(t, 1, k)
                            [] c = 4 -> SubSeq(t, k, Len(t)) [] c = 5 -> [t EXCEPT ![k] = Pick(i, Words)]
                            [] OTHER -> SubSeq(t, 1, k) \o SubSeq(t, k, Len(t)))
                 IN IF u = <<"">> THEN t ELSE u
\* a filter that is made from a topic
Blurred(i, t) == LET w == TLCEval(IF Chance(i, 40) THEN Changed(i, t) ELSE t)
                     p == TLCEval(Pick(i, {0, 0, 30, 60, 100}))
                     f == TLCEval([k \in 1..Len(w) |-> IF Chance(i, p) THEN "+" ELSE w[k]])
                     c == TLCEval(Pick(i, 1..5)) IN
                 TLCEval(CASE c = 1 -> Append(f, "#") [] c = 2 -> Append(SubSeq(f, 1, Pick(i, 0..(Len(f) - 1))), "#") [] OTHER -> f)
ShapeSub(i, pool) == TLCEval(SubN(Pick(i, 1..40000),
                        TLCEval([k \in 1..Pick(i, 1..5) |-> TLCEval(<<TLCEval(Blurred(i, pool[Pick(i, 1..Len(pool))])), Pick(i, {32, 32, 36, 40, 33, 16})>>)])))
ShapePhase(i, pool, m, ph) ==
    TLCEval([c \in 1..m |-> TLCEval(By(c, TLCEval(<<SendCut(TLCEval(
        (IF Chance(i, 60) THEN <<ShapeSub(i, pool)>> ELSE <<>>)
        \o [k \in 1..Pick(i, 3..9) |-> TLCEval(LET t == TLCEval(pool[Pick(i, 1..Len(pool))]) IN
               Pub(IF Chance(i, 30) THEN Changed(i, t) ELSE t, "m" \o ToString(c) \o "." \o ToString(ph) \o "." \o ToString(k), 10))]),
        CutMode(i))>>)))])
TopicScript(i) ==
    LET cfg == TLCEval(Config(65536, Chance(i, 20), Queue(i)))
        m == TLCEval(Pick(i, 2..5))
        base == TLCEval([k \in 1..3 |-> TLCEval(AnyTopic(i))])
        pool == TLCEval(base \o [k \in 1..5 |-> TLCEval(Changed(i, base[1 + (k % 3)]))])
        first == TLCEval([c \in 1..m |-> TLCEval(By(c, TLCEval(<<Open(Chance(i, 40)), Send(TLCEval(<<Connect(Ids[c])>> \o [k \in 1..Pick(i, 1..3) |-> ShapeSub(i, pool)]))>>)))])
        leave == TLCEval(IF Chance(i, 40) THEN <<<<By(m, <<Close(Pick(i, {"fin", "rst"}))>>)>>, ShapePhase(i, pool, m - 1, 4)>> ELSE <<>>)
    IN Script(cfg, TLCEval(<<first, ShapePhase(i, pool, m, 2), ShapePhase(i, pool, m, 3)>> \o leave), SubSeq(pool, 1, 5))

\* --- segmentation --------------------------------------------------------
CutAny(i) == Pick(i, {0, 1, 2, 3, 4, 5, 7, 11, 20, 64, 9999})
\* from the CONNECT on in one go
CutScript(i) ==
    LET max == TLCEval(Pick(i, {90, 130, 300, 65536}))
        cfg == TLCEval(Config(max, FALSE, Queue(i)))
        m == TLCEval(Pick(i, 2..4))
        body(c, ph, from) == TLCEval(Packets(i, c, ph, from, from + Pick(i, 4..12), max - 8))
        first == TLCEval([c \in 1..m |-> TLCEval(By(c, <<Open(Chance(i, 45)),
                     SendCut(TLCEval(<<Connect(Ids[c]), SubN(c, <<<<Pick(i, SmallFilters), 32>>>>)>> \o body(c, 1, 1)), CutAny(i))>>))])
        again(ph) == TLCEval([c \in 1..m |-> TLCEval(By(c, <<SendCut(body(c, ph, 1), CutAny(i)), SendCut(body(c, ph, 30), CutAny(i))>>))])
    IN Whole(cfg, TLCEval(<<first, again(2), again(3)>>))

\* --- who does not read ---------------------------------------------------
OpenSmall(enc) == [a |-> "open", enc |-> enc, rcvbuf |-> 4096]
StallScript(i) ==
    LET cfg == TLCEval(Config(65536, Chance(i, 20), Queue(i)))
        e == TLCEval([c \in 1..4 |-> Chance(i, 40)])
        lazy == TLCEval(IF Chance(i, 50) THEN {3} ELSE {3, 4})
        open == TLCEval([c \in 1..4 |-> TLCEval(By(c, <<IF c \in lazy THEN OpenSmall(e[c]) ELSE Open(e[c]),
                     Send(<<Connect(Ids[c]), SubN(7, <<<<Pick(i, SmallFilters), Pick(i, {32, 36})>>, <<Pick(i, {<<"t", "x">>, <<"#">>}), 32>>>>)>>)>>))])
        pause == TLCEval([k \in 1..Cardinality(lazy) |-> By(2 + k, <<Pause>>)])
        \* many small ones, or few large ones, or one after the other
        burst(c, ph) == LET x == TLCEval(Pick(i, {<<1100, 1000, 50>>, <<500, 6000, 7>>, <<90, 30000, 1>>, <<50, 60000, 1>>, <<5, 10, 1>>}))
                        IN TLCEval(Flooding(Pub(<<"t", "x">>, "s" \o ToString(c) \o "." \o ToString(ph), x[2]), x[1], x[3]))
        \* so much that it fits into nothing that is between the two, and then very many
        lots == TLCEval(<<Bulk(Pub(<<"t", "x">>, "k1", 60000), Pick(i, {60, 120}), 1), Bulk(Pub(<<"t", "x">>, "l1", 16), Pick(i, {1030, 5000, 9000}), Pick(i, {1, 50, 1000}))>>)
        flood == TLCEval(IF Chance(i, 25) THEN <<By(1, lots)>>
                         ELSE <<By(1, <<burst(1, 3)>>)>> \o (IF Chance(i, 30) THEN <<By(2, <<burst(2, 3)>>)>> ELSE <<>>))
        small(c, ph) == By(c, <<Send(<<Pub(<<"t", "x">>, "n" \o ToString(c) \o "." \o ToString(ph), 9), Pub(<<"u">>, "o" \o ToString(c) \o "." \o ToString(ph), 9)>>)>>)
        late == TLCEval(By(5, <<Open(Chance(i, 50)), Send(<<Connect("late"), SubN(7, <<<<<<"#">>, 32>>>>), Pub(<<"u">>, "late", 9)>>)>>))
        resume(cs) == [k \in 1..Len(cs) |-> By(cs[k], <<Resume>>)]
        after == <<small(1, 9), small(2, 9)>>
        then == TLCEval(CASE Pick(i, 1..3) = 1 -> << <<small(2, 4), late>>, resume(SetToSeq(lazy)) >>
                  \* the identifier is taken over
                  [] Pick(i, 1..2) = 1 -> << <<By(5, <<IF Chance(i, 30) THEN OpenSmall(Chance(i, 50)) ELSE Open(Chance(i, 50)), Send(<<Connect(Ids[3]), SubN(9, <<<<<<"t", "x">>, 32>>>>)>>)>>)>>,
                                            <<small(5, 5), small(1, 5)>>, resume(SetToSeq(lazy)) >>
                  \* or the client leaves
                  [] OTHER -> << <<By(3, <<Close(Pick(i, {"rst", "fin"}))>>), small(2, 4)>>, resume(SetToSeq(lazy \ {3})) \o <<late>> >>)
    IN Script(cfg, TLCEval(<<open, pause, flood>> \o then \o <<after>>), Looked)

\* --- many clients, filters, levels -----------------------------------------
CrowdIds(c) == "k" \o ToString(c)
CrowdFilters == {<<"t", "x">>, <<"t", "+">>, <<"#">>, <<"t", "x">>, <<"t", "x", "#">>, <<"u">>, <<"+", "x">>}
Deep(i, n, wild) == TLCEval([k \in 1..n |-> IF Chance(i, wild) THEN "+" ELSE IF k % 7 = 0 THEN "" ELSE "l" \o ToString(k % 3)])
DeepTopic(n) == [k \in 1..n |-> IF k % 7 = 0 THEN "" ELSE "l" \o ToString(k % 3)]
CrowdScript(i) ==
    LET cfg == TLCEval(Config(65536, Chance(i, 20), Queue(i)))
        m == TLCEval(Pick(i, {18, 20, 34, 40, 66, 70, 135, 140, 260}))
        n == TLCEval(Pick(i, {10, 20, 33, 70, 130, 260}))
        d == TLCEval(Pick(i, {5, 9, 17, 33, 65, 130}))
        e == TLCEval([c \in 1..m |-> Chance(i, 25)])
        first == TLCEval([c \in 1..m |-> TLCEval(By(c, <<Open(e[c]), Send(<<Connect(CrowdIds(c)), SubN(c, <<<<Pick(i, CrowdFilters), Pick(i, {32, 32, 36})>>>>)>>)>>))])
        \* one with many subscriptions, in one packet or in many, one with deep ones
        many == TLCEval(By(1, IF Chance(i, 50) THEN <<Send(<<SubN(7, [k \in 1..n |-> <<<<"s", ToString(k)>>, 32>>])>>)>>
                              ELSE <<Send([k \in 1..n |-> Sub1(k, <<"s", ToString(k)>>, 32)])>>))
        deep == TLCEval(By(2, <<Send([k \in 1..5 |-> Sub1(k, TLCEval(Deep(i, IF k = 1 THEN d ELSE Pick(i, 1..d), 20)) \o (IF k % 2 = 0 THEN <<"#">> ELSE <<>>), 32)])>>))
        props == [k \in 1..n |-> <<38, ToString(k % 10)>>]
        some == TLCEval([k \in 1..6 |-> IF k = 1 THEN n ELSE Pick(i, 1..n)])
        talk(c, ph) == By(c, <<Send(<<Pub(<<"t", "x">>, "v" \o ToString(c) \o "." \o ToString(ph), 9), PubP(<<"u">>, "w" \o ToString(c) \o "." \o ToString(ph), 9, props),
                                      Pub(DeepTopic(d), "d" \o ToString(c) \o "." \o ToString(ph), 9), Pub(DeepTopic(d + 1), "D" \o ToString(c) \o "." \o ToString(ph), 9)>>
                                    \o [k \in 1..6 |-> Pub(<<"s", ToString(some[k])>>, "s" \o ToString(c) \o "." \o ToString(ph) \o "." \o ToString(k), 12)])>>)
        \* many leave at once, some are replaced, some come
        leave == TLCEval(RandomSubset(Pick(i, {1, m \div 4, m \div 2, m - 5}), 3..m))
        q == TLCEval(SetToSeq(leave))
        going == TLCEval([k \in 1..Len(q) |-> TLCEval(IF Chance(i, 30) THEN By(m + k, <<Open(Chance(i, 25)), Send(<<Connect(CrowdIds(q[k])), SubN(9, <<<<<<"t", "x">>, 32>>>>)>>)>>)
                                                      ELSE By(q[k], <<Close(Pick(i, {"fin", "rst", "half"}))>>))])
        last == TLCEval(IF Chance(i, 50) THEN <<By(1, <<Close(Pick(i, {"fin", "rst"}))>>), By(3 * m, <<Open(FALSE), Send(<<Connect(CrowdIds(1))>>)>>)>> ELSE <<>>)
    IN Script(cfg, TLCEval(<<first, <<many, deep>>, <<talk(1, 3), talk(2, 3)>>, going, <<talk(1, 5), talk(2, 5)>>>> \o (IF last = <<>> THEN <<>> ELSE <<last, <<talk(2, 7)>>>>)),
              TLCEval(<< <<"t", "x">>, <<"u">>, <<"s", ToString(n)>>, <<"s", "1">>, DeepTopic(d) >>))

\* --- requests that are still waiting when their client is replaced ---------------
UsurpScript(i) ==
    LET cfg == TLCEval(Config(65536, Chance(i, 20), Pick(i, {2000, 65536, 1000000})))
        e == TLCEval([c \in 1..6 |-> Chance(i, 40)])
        open == TLCEval([c \in 1..4 |-> TLCEval(By(c, <<Open(e[c]), Send(<<Connect(Ids[c])>> \o
                     (CASE c = 1 -> <<Sub1(7, <<"#">>, 32)>> [] c = 2 /\ Chance(i, 60) -> <<Sub1(7, <<"u">>, 32)>>
                        [] OTHER -> <<Sub1(7, Pick(i, SmallFilters), 36)>>))>>))])
        ready == <<By(5, <<Open(e[5])>>), By(6, <<Open(e[6])>>)>>
        flood(c) == By(c, <<Flooding(Pub(Small[1 + (c % 2)], "f" \o ToString(c), 12 + c), Pick(i, {60, 150, 300}), 50)>>)
        wants == TLCEval(CASE Pick(i, 1..2) = 1 -> <<Pick(i, Unsupported)>>
                           [] OTHER -> <<Subscribe(i), Pub(<<"t", "x">>, "old", 9), Subscribe(i)>>)
        before == TLCEval(Packets(i, 2, 3, 1, Pick(i, 0..3), cfg.max))
        usurp == By(5, <<Send(<<Connect(Ids[2])>> \o (IF Chance(i, 60) THEN <<Sub1(8, <<"t", "y">>, 32)>> ELSE <<>>))>>)
        also == TLCEval(IF Chance(i, 30) THEN <<By(6, <<Send(<<Connect("z"), Sub1(8, <<"t", "#">>, 32)>>)>>)>> ELSE <<>>)
        small(c, ph) == By(c, <<Send([k \in 1..3 |-> Pub(Small[k], "n" \o ToString(c) \o "." \o ToString(ph) \o "." \o ToString(k), 9)])>>)
    IN Script(cfg, TLCEval(<<open, ready, TLCEval(<<flood(3), flood(4), By(2, <<Send(before \o wants)>>), usurp>> \o also),
                             <<small(1, 4), small(5, 4)>>>>), Looked)

\* --- many connections, one after the other -----------------------------------
\* some leave, some are replaced, some come, round after round, while two others stay
ChurnPhase(i, cfg, S, ph) ==
    LET from == TLCEval(NextConn(S, <<>>))
        guests == TLCEval(Live(S) \ {1, 2})
        going == TLCEval(RandomSubset(Pick(i, 0..(Cardinality(guests) \div 2)), guests))
        leave == TLCEval(SetToSeq(going))
        named == TLCEval({c \in guests \ going : SubSeq(S.conns[c].id, 1, 1) # "?"})
        old == TLCEval(SetToSeq(RandomSubset(IF Cardinality(named) > 2 THEN Pick(i, 0..2) ELSE 0, named)))
        fresh == IF Cardinality(guests) > 14 THEN 1 ELSE 6
        come == TLCEval([k \in 1..(Len(old) + fresh) |-> TLCEval(LET c == from + k - 1 IN
                   By(c, Opening(i, IF k <= Len(old) THEN S.conns[old[k]].id ELSE IF Chance(i, 40) THEN "" ELSE "n" \o ToString(c % 31) \o "." \o ToString(c), cfg.max, ph, c, TRUE)))])
        talk == TLCEval(By(1 + (ph % 2), <<Send(<<Pub(<<"t", "x">>, "v" \o ToString(ph), 9), Subscribe(i), Pub(<<"u">>, "w" \o ToString(ph), 9)>>)>>))
    IN TLCEval([k \in 1..Len(leave) |-> TLCEval(By(leave[k], Ending(i)))] \o come \o <<talk>>)
RECURSIVE Churning(_, _, _, _, _)
Churning(i, cfg, S, ph, k) ==
    IF k = 0 THEN <<>>
    ELSE LET do == ChurnPhase(i, cfg, S, ph) IN <<do>> \o Churning(i, cfg, RunDo(cfg, S, do, 1), ph + 1, k - 1)
ChurnScript(i) ==
    LET cfg == TLCEval(Cfg(i))
        stay == TLCEval([c \in 1..2 |-> TLCEval(By(c, <<Open(c = 2), Send(<<Connect(Ids[c]), SubN(c, <<<<IF c = 1 THEN <<"#">> ELSE <<"t", "+">>, 32>>>>)>>)>>))])
        \* more messages than 16 bits count
        many == TLCEval(IF Chance(i, 45) THEN [k \in 1..8 |-> <<By(1 + (k % 2), <<Bulk(Pub(<<"t", "x">>, "k" \o ToString(k), 12), 8250, 1000)>>)>>] ELSE <<>>)
    IN Whole(cfg, TLCEval(<<stay>> \o many \o TLCEval(Churning(i, cfg, RunDo(cfg, Start, stay, 1), 2, 48))))

\* --- shutting down -------------------------------------------------------
AtEnd(i, T, from) ==
    LET live == TLCEval(SetToSeq(Live(T)))
        busy == TLCEval([k \in 1..Len(live) |-> By(live[k], IF Chance(i, 60) THEN <<Flooding(Pub(<<"t", "x">>, "z" \o ToString(k), Pick(i, {12, 2000})), Pick(i, {20, 300}), Pick(i, {1, 10}))>> ELSE <<>>)])
        late == TLCEval([k \in 1..Pick(i, 0..4) |-> TLCEval(By(from + k,
                    CASE Pick(i, 1..5) = 1 -> <<Open(FALSE)>>
                      [] Pick(i, 1..4) = 1 -> <<OpenFaulty("none", 0)>>
                      [] Pick(i, 1..3) = 1 -> <<OpenFaulty("stop3", 0)>>
                      [] Pick(i, 1..2) = 1 -> <<Open(TRUE)>>
                      [] OTHER -> <<Open(Chance(i, 50)), Send(<<Connect("late" \o ToString(k)), Sub1(7, <<"#">>, 32), Pub(<<"u">>, "l" \o ToString(k), 9)>>)>>))])
    IN TLCEval(busy \o late)
ShutScript(i) ==
    LET cfg == TLCEval(Config(65536, FALSE, Pick(i, {1, 65536})))
        m == TLCEval(Pick(i, 0..5))
        lazy == TLCEval(m > 0 /\ Chance(i, 40))
        open == TLCEval([k \in 1..m |-> IF k = 1 /\ lazy THEN By(1, <<OpenSmall(Chance(i, 40)), Send(<<Connect(Ids[1]), Sub1(1, <<"t", "x">>, 32)>>)>>) ELSE Members(i, k, k, 70)[1]])
        T == RunDo(cfg, Start, open, 1)
        idle == TLCEval([k \in 1..Pick(i, 0..2) |-> TLCEval(By(m + k, IF Chance(i, 50) THEN <<Open(FALSE)>> ELSE <<Open(TRUE)>>))])
        pause == TLCEval(IF lazy THEN << <<By(1, <<Pause>>)>>,
                     <<By(m, IF m = 1 THEN <<>> ELSE <<Flooding(Pub(<<"t", "x">>, "p", 20000), Pick(i, {3, 100, 300}), 1)>>)>> >> ELSE <<>>)
        dos == TLCEval((IF open = <<>> THEN <<>> ELSE <<open>>) \o (IF idle = <<>> THEN <<>> ELSE <<idle>>) \o pause)
        last == TLCEval(AtEnd(i, T, m + 5))
        \* without the other listener, if nobody wants it
        AnyEnc(do) == \E k \in 1..Len(do) : \E j \in 1..Len(do[k].as) : do[k].as[j].a = "open" /\ do[k].as[j].enc
        both == AnyEnc(last) \/ \E k \in 1..Len(dos) : AnyEnc(dos[k])
    IN TLCEval([Script(cfg, dos, <<>>) EXCEPT !.cfg.noise = both] @@ [atend |-> last, wait |-> Pick(i, {0, 1, 3, 10, 30})])

Draw(i) == CASE Kind = "mix" -> Mixed(i, 8, 15)
             [] Kind = "calm" -> Mixed(i, 0, 0)
             [] Kind = "storm" -> Mixed(i, 35, 60)
             [] Kind = "order" -> Flooded(i, Queue(i), 24)
             [] Kind = "queue" -> Flooded(i, Pick(i, {0, 1, 2, 200, 300, 500, 700, 1000, 2000}), 40)
             [] Kind = "race" -> RaceScript(i)
             [] Kind = "connack" -> ConnAckScript(i)
             [] Kind = "suback" -> SubAckScript(i)
             [] Kind = "contents" -> ContentScript(i)
             [] Kind = "topics" -> TopicScript(i)
             [] Kind = "cuts" -> CutScript(i)
             [] Kind = "stall" -> StallScript(i)
             [] Kind = "crowd" -> CrowdScript(i)
             [] Kind = "usurp" -> UsurpScript(i)
             [] Kind = "churn" -> ChurnScript(i)
             [] Kind = "shutdown" -> ShutScript(i)

Init == drawn = 0
Next == drawn < Scripts /\ drawn' = drawn + 1 /\ PrintT("@" \o ToJson(TLCEval(Draw(drawn'))))
Spec == Init /\ [][Next]_drawn
=============================================================================

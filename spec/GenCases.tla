------------------------------ MODULE GenCases ------------------------------
(***************************************************************************)
(* Enumerated scripts: everything that can be wrong with an encrypted      *)
(* connection, with a first packet, with the bytes and the behaviour of a  *)
(* client, and packets around the sizes that matter.                       *)
(***************************************************************************)
EXTENDS BrokerScripts, Json, IOUtils

Family == IOEnv.FAMILY
Thorough == IOEnv.TIER = "thorough"
VARIABLES at

T1 == <<"t", "x">>
T2 == <<"u">>
Looked == <<T1, T2>>
\* someone who watches everything, and someone else on an encrypted connection
Watchers == << By(1, <<Open(FALSE), Send(<<Connect("w"), Sub1(7, <<"#">>, Plain)>>)>>),
               By(2, <<Open(TRUE), Send(<<Connect("v"), Sub1(7, T1, Plain)>>)>>) >>
After == << By(1, <<Send(<<Pub(T1, "after.1", 9), Pub(T2, "after.2", 9)>>)>>), By(2, <<Send(<<Pub(T1, "after.3", 9)>>)>>) >>
Late == << By(9, <<Open(TRUE), Send(<<Connect("late"), Sub1(7, <<"t", "+">>, Plain), Pub(T1, "late", 9)>>)>>) >>
Case(dos) == <<Usual, <<Watchers>> \o dos \o <<After>>>>
Everything == <<Connect("x"), Sub1(5, T1, Plain), Pub(T1, "x.1", 9), Pub(T2, "x.2", 9)>>

\* --- handshakes ----------------------------------------------------------
Spread == IF Thorough THEN 0..63 ELSE {0, 1, 5, 16, 31, 32, 40, 47, 48, 63}
Handshakes == {OpenFaulty(f, a) : f \in {"flip1", "short1", "random1", "flip3", "short3", "nearkey", "wrongkey"}, a \in Spread}
              \cup {OpenFaulty(f, 0) : f \in {"long1", "long3", "no3", "twice1", "twice3", "none"}}
HandshakeCases == {Case(<< <<By(3, <<h, Send(Everything)>>)>> >>) : h \in Handshakes}

\* --- messages on an encrypted connection ---------------------------------
With(ps, k, f, a) == [j \in 1..Len(ps) |-> IF j = k THEN ps[j] @@ [nf |-> f, at |-> a] ELSE ps[j]]
Long == Everything \o <<Pub(T1, "x.3", 40), Pub(T2, "x.4", 9)>>
Ats == IF Thorough THEN 0..40 ELSE {0, 1, 2, 7, 15, 16, 20, 30}
TamperCases(fs, ats) ==
    {Case(<< <<By(3, <<Open(TRUE), Send(With(Long, k, f, a))>>)>> >>) : k \in 1..5, f \in fs, a \in ats}
    \* in phases of their own
    \cup {Case(<< <<By(3, <<Open(TRUE), Send(<<Connect("x"), Sub1(5, <<"u">>, Plain)>>)>>)>>,
                  <<By(3, <<Send(With(<<p, Pub(T1, "x.3", 9)>>, 1, f, a))>>)>> >>)
          : p \in {Pub(T1, "x.1", 9), Sub1(6, T1, Plain)}, f \in fs, a \in {x \in ats : x < 3}}
NoiseCases == HandshakeCases \cup TamperCases({"flip", "short"}, Ats)
              \cup TamperCases({"long", "replay", "swap", "drop", "plain", "bare"}, {0})
\* --- exactly one packet per message --------------------------------------
PacketCases == TamperCases({"join", "empty"}, {0}) \cup TamperCases({"tail", "cut", "split"}, Ats)
    \* whole ones of all sizes, cut into segments anywhere
    \cup {<<Config(70000, FALSE, 65536),
            <<Watchers, <<By(3, <<Open(TRUE), SendCut(<<Connect("x"), Sub1(5, T1, Plain), Pub(T1, "x.1", n), Pub(T2, "x.2", n + 1), Pub(T1, "x.3", 9)>>, cut)>>)>>, After>>>>
          : n \in {8, 100, 128, 1000, 20000, 65500}, cut \in IF Thorough THEN {0, 1, 2, 3, 4, 5, 6, 7, 19, 20, 21, 50, 9999} ELSE {0, 1, 3, 20, 9999}}

\* --- what comes first ----------------------------------------------------
\* CONNECT packets that are not quite right
BadConnects == { Raw("bad", "100e00044d5154540402003c0000" \o "0161"),                     \* version 4
                 Raw("bad", "100e00044d5154540602003c0000" \o "0161"),                     \* version 6
                 Raw("bad", "100e00044d5154580502003c0000" \o "0161"),                     \* MQTX
                 Raw("bad", "100e00044d7174740502003c0000" \o "0161"),                     \* Mqtt
                 Raw("bad", "110e00044d5154540502003c0000" \o "0161"),                     \* flags of the header
                 Raw("bad", "100e00044d5154540503003c0000" \o "0161"),                     \* reserved flag
                 Raw("bad", "100e00044d515454050a003c0000" \o "0161"),                     \* will QoS without will
                 Raw("bad", "100e00044d5154540522003c0000" \o "0161"),                     \* will retain without will
                 Raw("bad", "100e00044d5154540542003c0000" \o "0161"),                     \* password announced, not there
                 Raw("bad", "100e00044d5154540582003c0000" \o "0161"),                     \* user name announced, not there
                 Raw("bad", "100e00044d5154540506003c0000" \o "0161"),                     \* will announced, not there
                 Raw("bad", "100f00044d5154540502003c0000" \o "016100"),                   \* a byte behind
                 Raw("bad", "100d00044d5154540502003c0000" \o "01"),                       \* identifier cut
                 Raw("bad", "100e00044d5154540502003c0000" \o "0101"),                     \* control character
                 Raw("bad", "100e00044d5154540502003c0000" \o "01ff"),                     \* not UTF-8
                 Raw("bad", "101000044d5154540502003c020100" \o "000161"),                 \* property of PUBLISH
                 Raw("bad", "101400044d5154540502003c06210001210002" \o "000161"),         \* property twice
                 Raw("bad", "1000"), Raw("bad", "100100"), Raw("bad", "10ffffffff7f") }
NotFirst == { Sub1(5, T1, Plain), Pub(T1, "x.0", 9), Raw("odd", "c000"), Raw("odd", "e0020000"), Raw("odd", "f0020000"),
              Raw("odd", "2003000000"), Raw("odd", "400400010000"), Raw("odd", "a20900010000047478" \o "7879"),
              [Pub(T1, "x.0", 9) EXCEPT !.fl = 2], Raw("odd", "d000"), Raw("bad", "0000"), Raw("bad", "f1020000"),
              [t |-> "blob", first |-> 16, n |-> 40], [t |-> "blob", first |-> 16, n |-> 70000], SubN(5, <<>>) }
Refused == { Connect("x") @@ [user |-> "u"], Connect("x") @@ [pass |-> "p"], Connect("x") @@ [will |-> "w"], Connect("x") @@ [clean |-> FALSE],
             ConnectP("x", <<<<21, "m">>>>), ConnectP("x", <<<<21, "m">>, <<22, "d">>>>), ConnectP("", <<<<21, "m">>>>) }
FirstCases ==
    {Case(<< <<By(3, <<Open(e), SendCut(<<p>> \o q, cut)>>)>> >>) :
        e \in BOOLEAN, p \in BadConnects \cup NotFirst \cup Refused, q \in {<<>>, Everything}, cut \in {0, 9999}}
    \* all is well until a second CONNECT
    \cup {Case(<< <<By(3, <<Open(e), Send(<<Connect("x"), Sub1(5, T1, Plain)>>)>>)>>, <<By(3, <<Send(<<p>>)>>)>> >>) :
            e \in BOOLEAN, p \in {Connect("x"), Connect("y"), Connect("w"), Connect("")}}
    \* before there is a first packet
    \cup {Case(<< <<By(3, <<Open(e)>>)>>, <<By(3, <<Close(how)>>)>> >>) : e \in BOOLEAN, how \in {"fin", "rst", "half"}}
    \* in the middle of it
    \cup {Case(<< <<By(3, <<Open(FALSE), Send(<<[as |-> "part", t |-> "raw", hex |-> h, n |-> Len(h) \div 2]>>)>>)>>, Late, <<By(3, <<Close(how)>>)>> >>) :
            h \in {"10", "10ff", "100e", "100e00044d51", "100e00044d5154540502003c0000" \o "01"}, how \in {"fin", "rst", "half"}}

\* --- behaviour that must not harm the others -----------------------------
Zoo == { Raw("bad", h) : h \in {
    "0000", "3002ffff", "f1020000", "8206000100000161", "c100", "82050001000000", "30ffffffff7f", "3605000161000000", "1000",
    "30ffffffffff", "8200", "a000" } }
Part(hex) == [t |-> "raw", as |-> "part", hex |-> hex, n |-> Len(hex) \div 2]
Ends3(p) == << By(3, <<Send(<<p>>)>>) >>
Member(e) == << By(3, <<Open(e), Send(<<Connect("x"), Sub1(5, T1, Plain)>>)>>) >>
Mute(e) == << By(3, <<Open(e), Send(<<Connect("x")>>)>>) >>
Big == Flooding(Pub(T1, "big", 30000), IF Thorough THEN 200 ELSE 60, 1)
PausedOpen(e) == [a |-> "open", enc |-> e, rcvbuf |-> 4096]
Paused(e, max) == << By(3, <<PausedOpen(e), Send(<<Connect("x"), Sub1(5, T1, Plain)>>)>>) >>
MisbehaveCases ==
    \* half a packet, and then nothing, the end, or more of something else
    {Case(<< Mute(FALSE), <<By(3, <<Send(<<Part(h)>>)>>)>>, Late, <<By(3, <<Close(how)>>)>> >>) :
        h \in {"30", "3010", "30100003", "82", "82ffffff", "8207000100"}, how \in {"fin", "rst", "half"}}
    \* as many levels as there can be
    \cup {Case(<< Mute(e), <<By(3, <<Send(<<Sub1(6, f, Plain), Pub(f, "deep.1", 9), Pub(<<"t", "@9000", "x">>, "deep.2", 9)>>)>>)>>, Late, <<By(3, <<Close("fin")>>)>> >>) :
        e \in BOOLEAN, f \in {<<"t", "@9000">>, <<"@9000">>, <<"@9000", "x">>}}
    \* gone with requests under way
    \cup {Case(<< Member(e), <<By(3, <<Send(ps), Close(how)>>), By(1, <<Send(<<Pub(T1, "m.1", 9), Pub(T1, "m.2", 9)>>)>>)>>, Late >>) :
            e \in BOOLEAN, how \in {"fin", "rst", "half"},
            ps \in { <<Pub(T1, "q.1", 9), Pub(T2, "q.2", 9)>>, <<Sub1(6, <<"#">>, Plain), Pub(T1, "q.1", 9)>>, <<[Pub(T1, "q.1", 9) EXCEPT !.fl = 2]>>,
                     <<Raw("odd", "c000")>>, <<Connect("x")>>, <<Raw("bad", "3002ffff")>>, <<[Sub1(6, T2, Plain) EXCEPT !.props = <<<<11, 5>>>>]>>,
                     <<PubP(T1, "q.1", 9, <<<<2, "9">>>>)>>, <<SubN(6, <<<<T2, 34>>, <<T1, 44>>>>), Raw("odd", "e0020000")>> }}
    \* many of them at once
    \cup {Case(<< [k \in 1..8 |-> By(2 + k, <<Open(k % 2 = 0), Send(<<Connect("x" \o ToString(k)), Sub1(5, T1, Plain)>>)>>)],
                  [k \in 1..8 |-> By(2 + k, <<Send(<<Pub(T1, "q." \o ToString(k), 9), p>>), Close(how)>>)],
                  Late >>) : how \in {"fin", "rst"}, p \in {Raw("odd", "c000"), Raw("bad", "0000"), Pub(T2, "end", 9), Sub1(6, <<"#">>, 44)}}
    \* who does not read holds nobody up, and gets everything in the end
    \cup {<<[Usual EXCEPT !.queue = q], <<Watchers, Paused(e, 0), <<By(3, <<Pause>>)>>, <<By(1, <<Big>>)>>,
                  <<By(2, <<Send(<<Pub(T1, "m.1", 9)>>)>>), By(9, <<Open(FALSE), Send(<<Connect("late"), Sub1(7, T2, Plain), Pub(T2, "late", 9)>>)>>)>>,
                  <<By(3, <<Resume>>)>>, After>>>> : e \in BOOLEAN, q \in {1, 65536}}
    \* or leaves, or says something wrong
    \cup {Case(<< Paused(e, 0), <<By(3, <<Pause>>)>>, <<By(1, <<Big>>)>>, <<By(3, <<Close("rst")>>)>>, Late >>) : e \in BOOLEAN}
    \* while all is well otherwise
    \cup {Case(<< Member(e), <<By(3, <<Send(<<p>>)>>), By(1, <<Send(<<Pub(T1, "m.1", 9), Pub(T1, "m.2", 9)>>)>>)>>, Late >>) : e \in BOOLEAN, p \in Zoo}
    \cup {Case(<< <<By(3, <<Open(e), Send(<<p>>)>>)>>, Late >>) : e \in BOOLEAN, p \in Zoo}

\* --- what is not supported, with all values --------------------------------
Company == << <<>>, <<<<38, "u">>>>, <<<<1, 1>>, <<8, "r">>, <<9, "c">>>>, <<<<3, "text">>, <<38, "">>>> >>
OddProps == {<<2, "0">>, <<2, "1">>, <<2, "65536">>, <<2, "2147483648">>, <<2, "4294967295">>, <<35, 1>>, <<35, 255>>, <<35, 256>>, <<35, 65535>>,
             <<11, 1>>, <<11, 127>>, <<11, 128>>, <<11, 16384>>, <<11, 2097152>>, <<11, 268435455>>}
OddPubs == {PubP(t, "v.1", n, Company[a] \o <<x>> \o Company[b]) :
              x \in OddProps, t \in {T1, T2}, n \in {0, 9}, a \in 1..2, b \in {1, 3, 4}}
           \cup {PubP(T1, "v.1", 9, <<x, y>>) : x \in {<<2, "0">>, <<2, "4294967295">>}, y \in {<<35, 1>>, <<11, 1>>}}
           \cup {[PubP(t, "v.1", n, Company[a]) EXCEPT !.fl = f] : f \in {1, 2, 3, 4, 5, 8, 9, 10, 11, 12, 13}, t \in {T1, T2}, n \in {0, 9}, a \in 1..4}
OddSubs == {[SubN(9, fs) EXCEPT !.props = a \o <<<<11, v>>>> \o b] :
              v \in {1, 127, 128, 268435455}, a \in {<<>>, <<<<38, "u">>>>}, b \in {<<>>, <<<<38, "">>>>},
              fs \in {<<<<T1, Plain>>>>, <<<<T2, NotMine>>, <<<<"#">>, Plain>>>>, <<<<T1, 33>>, <<T2, 0>>>>}}
Lone(p) == IF p.t = "pub" /\ p.pay[2] = 0 THEN [p EXCEPT !.pay = <<"", 0>>] ELSE p
ValueCases == {Case(<< <<By(3, <<Open(e), Send(<<Connect("x"), Sub1(5, T2, Plain)>>)>>)>>, <<By(3, <<SendCut(<<Pub(T1, "v.2", 9), Lone(p)>>, cut)>>)>> >>)
               : e \in BOOLEAN, p \in OddPubs \cup OddSubs, cut \in IF Thorough THEN {0, 1, 7} ELSE {0}}

\* --- sizes ---------------------------------------------------------------
\* a message of exactly n bytes
Sized(topic, name, n) ==
    LET h == 2 + TopicLen(topic) + 1
        fit == {b \in {n - 2, n - 3, n - 4, n - 5} : Framed(b) = n}
        \* there is no packet of 130 bytes, for instance
        body == IF fit = {} THEN n - 3 ELSE CHOOSE b \in fit : TRUE
    IN Pub(topic, name, body - h)
\* what a message of Noise can carry
Heavy == {<<Config(max, FALSE, 65536),
            << << By(1, <<Open(FALSE), Send(<<Connect("w"), Sub1(7, T1, Plain)>>)>>),
                  By(2, <<Open(TRUE), Send(<<Connect("v"), Sub1(7, T1, Plain)>>)>>),
                  By(3, <<Open(TRUE), Send(<<ConnectP("z", <<<<39, 65519>>>>), Sub1(7, T1, Plain)>>)>>),
                  By(4, <<Open(FALSE), Send(<<ConnectP("y", <<<<39, 65520>>>>), Sub1(7, T1, Plain)>>)>>),
                  By(5, <<Open(TRUE), Send(<<ConnectP("x", <<<<39, 90000>>>>), Sub1(7, T1, Plain)>>)>>) >>,
               << By(c, <<SendCut(<<Sized(T1, "h", n)>>, cut)>>) >> >> >>
          : max \in {100000, 65520, 65519}, c \in {1, 2}, n \in {65518, 65519, 65520, 65521, 99999, 100000, 100001, 131072, 300000}, cut \in {0, 9000}}
HeavyOk == {x \in Heavy : \A it \in {x[2][2][1]} : it.c = 1 \/ it.as[1].ps[1].pay[2] < 65500}
\* exactly as large as is allowed, and one more, as the very first and as a later packet, cut anywhere
Edge == {<<Config(max, FALSE, 65536),
           << << By(1, <<Open(FALSE), Send(<<Connect("w"), Sub1(7, <<"#">>, Plain)>>)>>) >>,
              << By(2, <<Open(e), SendCut(<<Connect("v"), Sub1(7, T1, Plain), Sized(T1, "e.1", max - 20), Sized(T1, "e.2", max - 1 + over), Sized(T2, "e.3", max - 2), Pub(T2, "e.4", 9)>>, cut)>>) >>,
              << By(1, <<Send(<<Pub(T2, "after", 9)>>)>>) >> >> >>
         : max \in {100, 127, 128, 131, 300, 20000}, e \in BOOLEAN, over \in 0..3, cut \in IF Thorough THEN {0, 1, 2, 3, 7, 50, 9999} ELSE {0, 3, 9999}}
SizeCases == HeavyOk \cup Edge

\* -------------------------------------------------------------------------
Cases == CASE Family = "noise" -> NoiseCases
           [] Family = "packets" -> PacketCases
           [] Family = "first" -> FirstCases
           [] Family = "misbehave" -> MisbehaveCases
           [] Family = "sizes" -> SizeCases
           [] Family = "values" -> ValueCases
All == TLCEval(SetToSeq(Cases))
Init == at = 0
Next == at < Len(All) /\ at' = at + 1 /\ PrintT("@" \o ToJson(Script(All[at'][1], All[at'][2], Looked)))
Spec == Init /\ [][Next]_at
=============================================================================

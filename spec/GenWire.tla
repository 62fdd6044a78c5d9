------------------------------ MODULE GenWire -------------------------------
(***************************************************************************)
(* Scripts in which clients send the packets of GenCodec, well-formed and  *)
(* not, as their first packet or as a later one, over plain and encrypted  *)
(* connections.  MqttWire says what each of them is.                       *)
(***************************************************************************)
EXTENDS BrokerScripts, Json, IOUtils
W == INSTANCE MqttWire

Input == TLCEval(ndJsonDeserialize(IOEnv.CASES))
RECURSIVE Number(_, _)
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Number(t, k) == IF k = 0 THEN 0 ELSE 10 * Number(t, k - 1) + ((CHOOSE d \in 1..10 : Digits[d] = SubSeq(t, k, k)) - 1)
Env(x) == Number(x, Len(x))
\* every Step-th of them, beginning at From
Step1 == Env(IOEnv.STEP)
From == Env(IOEnv.FROM)
PerScript == 12
VARIABLES at

Nibble == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
RECURSIVE HexOf(_, _)
HexOf(b, k) == IF k > W!VLen(b) THEN "" ELSE LET x == W!At(b, k) IN Nibble[1 + (x \div 16)] \o Nibble[1 + (x % 16)] \o HexOf(b, k + 1)

HasP(p, k) == W!HasProp(p.ps, k)
Unasked(p) == ~(W!Bit(p.cf, 1) = 1) \/ p.user # <<>> \/ p.pass # <<>> \/ p.will # <<>> \/ HasP(p, 21) \/ HasP(p, 22)
\* what a packet is: "bad", "odd", "refused" (a CONNECT for something that is not supported), or "" if it is none of our
\* business here
Class(b, enc) ==
    LET h == W!Header(b)
        whole == h.s = "ok" /\ h.p + h.v <= W!VLen(b) + 1
        d == W!Decode(b)
        exact == d.s = "ok" /\ d.n = W!VLen(b)
    IN IF exact
       THEN IF ~W!Strict(d.p) THEN ""
            ELSE CASE d.p.t = W!CONNECT -> IF Unasked(d.p) THEN "refused" ELSE "odd"
                   [] d.p.t = W!PUBLISH -> IF d.p.fl # 0 \/ HasP(d.p, 2) \/ HasP(d.p, 11) \/ HasP(d.p, 35) THEN "odd" ELSE ""
                   [] d.p.t = W!SUBSCRIBE -> IF HasP(d.p, 11) THEN "odd" ELSE ""
                   [] OTHER -> "odd"
       ELSE IF enc THEN "bad"
       ELSE IF d.s = "bad" /\ (whole \/ (h.s = "bad" /\ W!VLen(b) >= 6)) THEN "bad" ELSE ""
\* an acceptable CONNECT is not wanted as a first packet
IsConnect(b) == W!VLen(b) > 0 /\ W!At(b, 1) = 16

Victim(k) ==
    LET i == From + k * Step1
        b == Input[1 + (i % Len(Input))].b
        enc == (i \div Len(Input)) % 2 = 1
        first == (i \div (2 * Len(Input))) % 2 = 1
        as == IF W!VLen(b) > 400 THEN "" ELSE Class(b, enc)
        ok == as # "" /\ ~(first /\ as = "odd" /\ IsConnect(b))
        c == 3 + (k % PerScript)
        p == [t |-> "raw", as |-> as, hex |-> HexOf(b, 1), n |-> W!VLen(b)]
    IN IF ~ok THEN <<>> ELSE <<<<c, enc, first, p>>>>
RECURSIVE Victims(_, _)
Victims(k, n) == IF n = 0 THEN <<>> ELSE Victim(k) \o Victims(k + 1, n - 1)

T1 == <<"t", "x">>
Watchers == << By(1, <<Open(FALSE), Send(<<Connect("w"), Sub1(7, <<"#">>, Plain)>>)>>),
               By(2, <<Open(TRUE), Send(<<Connect("v"), Sub1(7, T1, Plain)>>)>>) >>
After == << By(1, <<Send(<<Pub(T1, "after.1", 9), Pub(<<"u">>, "after.2", 9)>>)>>), By(2, <<Send(<<Pub(T1, "after.3", 9)>>)>>) >>
ScriptAt(k) ==
    LET vs == TLCEval(Victims(k * PerScript, PerScript))
        open == [j \in 1..Len(vs) |-> By(vs[j][1], <<Open(vs[j][2])>> \o
                    (IF vs[j][3] THEN <<>> ELSE <<Send(<<Connect("x" \o ToString(j)), Sub1(5, T1, Plain)>>)>>))]
        hit == [j \in 1..Len(vs) |-> By(vs[j][1], <<Send(<<vs[j][4]>>)>>)]
    IN IF vs = <<>> THEN <<>> ELSE <<Script(Usual, <<Watchers, open, hit, After>>, <<T1>>)>>
Total == 4 * Len(Input)
Init == at = 0
Next == /\ at * PerScript * Step1 < Total
        /\ at' = at + 1
        /\ \A s \in {ScriptAt(at)} : s = <<>> \/ PrintT("@" \o ToJson(s[1]))
Spec == Init /\ [][Next]_at
=============================================================================

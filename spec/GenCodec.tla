------------------------------ MODULE GenCodec ------------------------------
(***************************************************************************)
(* Behaviours of the wire specification, as stimuli for the real code: a   *)
(* systematic family of packets with their bytes (Encode), well-formed     *)
(* ones (api = TRUE, they are also built through the packet API) and       *)
(* ill-formed ones that break one rule each.  Written as ndjson.           *)
(***************************************************************************)
EXTENDS MqttWire, SequencesExt, Json, IOUtils, TLC

Thorough == IOEnv.TIER = "thorough"
Rep(c, n) == TLCEval([i \in 1..n |-> c])
SetSeq(S) == SetToSeq(S)
Map(s, F(_)) == TLCEval([i \in 1..Len(s) |-> F(s[i])])
a == 97

\* values of each property type, around the boundaries
Vals(ty) ==
    CASE ty = "byte" -> <<<<0>>, <<1>>>>
      [] ty = "bool" -> <<<<0>>, <<1>>>>
      [] ty = "u16" -> <<<<0, 1>>, <<1, 0>>, <<255, 255>>>>
      [] ty = "u32" -> <<<<0, 0, 0, 1>>, <<1, 2, 3, 4>>, <<128, 0, 0, 0>>, <<255, 255, 255, 255>>>>
      [] ty = "var" -> Map(<<1, 127, 128, 16383, 16384, 2097151, 2097152, MaxVar>>, Four)
      [] ty = "str" -> <<<<>>, <<a>>, <<195, 169>>, <<240, 159, 166, 128, 47>>, Rep(a, 127), Rep(a, 300)>>
      [] ty = "bin" -> <<<<>>, <<0>>, <<255, 254, 0>>, Rep(7, 200)>>
Val1(k) == Vals(PropType(k))[2]
PropSeq == <<1, 2, 3, 8, 9, 11, 17, 18, 19, 21, 22, 23, 24, 25, 26, 28, 31,
             33, 34, 35, 36, 37, 38, 39, 40, 41, 42>>
OwnProps(t) == SelectSeq(PropSeq, LAMBDA k : t \in PropOwners(k))

Will0 == [ps |-> <<>>, topic |-> <<119, 47, 116>>, pay |-> <<1, 2>>]
Base(t) ==
    CASE t = CONNECT -> [NoPacket EXCEPT !.t = 1, !.cf = 2, !.keep = 60, !.cid = <<99, 49>>]
      [] t = CONNACK -> [NoPacket EXCEPT !.t = 2, !.rc = 0]
      [] t = PUBLISH -> [NoPacket EXCEPT !.t = 3, !.topic = <<a, 47, 98>>, !.pay = VB(<<1, 2, 3>>)]
      [] t \in {PUBACK, PUBREC, PUBCOMP} -> [NoPacket EXCEPT !.t = t, !.id = 4660, !.rc = 0]
      [] t = PUBREL -> [NoPacket EXCEPT !.t = t, !.fl = 2, !.id = 4660, !.rc = 0]
      [] t = SUBSCRIBE -> [NoPacket EXCEPT !.t = t, !.fl = 2, !.id = 258, !.subs = <<<<<<a, 47, 43>>, 32>>>>]
      [] t = UNSUBSCRIBE -> [NoPacket EXCEPT !.t = t, !.fl = 2, !.id = 258, !.subs = <<<<<<a, 47, 35>>, 0>>>>]
      [] t \in {SUBACK, UNSUBACK} -> [NoPacket EXCEPT !.t = t, !.id = 258, !.rcs = <<0>>]
      [] t \in {PINGREQ, PINGRESP} -> [NoPacket EXCEPT !.t = t]
      [] t \in {DISCONNECT, AUTH} -> [NoPacket EXCEPT !.t = t, !.rc = 0]
      [] t = WILL -> [NoPacket EXCEPT !.t = 1, !.cf = 6, !.keep = 60, !.cid = <<99, 49>>, !.will = <<Will0>>]
\* the packet or will that owns the properties
WithProps(t, ps) == IF t = WILL THEN [Base(WILL) EXCEPT !.will = <<[Will0 EXCEPT !.ps = ps]>>]
                    ELSE [Base(t) EXCEPT !.ps = ps]
Types == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15>>
PropOwnersSeq == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15, 16>>

Good(p) == [api |-> TRUE, p |-> p, b |-> Encode(p)]
Raw(b) == [api |-> FALSE, p |-> NoPacket, b |-> b]
BadP(p) == Raw(Encode(p))

-----------------------------------------------------------------------------
(* well-formed packets *)
BaseCases == Map(Types, LAMBDA t : Good(Base(t)))

OnePropCases == FlattenSeq(Map(PropOwnersSeq, LAMBDA t :
    FlattenSeq(Map(OwnProps(t), LAMBDA k :
        Map(Vals(PropType(k)), LAMBDA v : Good(WithProps(t, <<<<k, v>>>>)))))))
AllPropCases == Map(PropOwnersSeq, LAMBDA t :
    Good(WithProps(t, Map(OwnProps(t), LAMBDA k : <<k, Val1(k)>>))))
UserProps == <<<<<<38, <<a>>>>, <<38, <<98>>>>, <<38, <<a>>>>>>,
               <<<<38, <<>>>>, <<38, <<>>>>>>,
               Rep(<<38, <<98, a>>>>, 20)>>
UserPropCases == FlattenSeq(Map(PropOwnersSeq, LAMBDA t :
    Map(UserProps, LAMBDA ps : Good(WithProps(t, ps)))))
\* property length fields at their boundaries (3 bytes of identifier and length)
PropLenCases == FlattenSeq(Map(<<1, 3, 8, 14, 16>>, LAMBDA t :
    Map(<<127, 128, 16383, 16384>>, LAMBDA n : Good(WithProps(t, <<<<38, Rep(a, n - 3)>>>>)))))

ReasonCases == FlattenSeq(Map(<<2, 4, 5, 6, 7, 14, 15>>, LAMBDA t :
    Map(SetSeq(Reasons(t)), LAMBDA r : Good([Base(t) EXCEPT !.rc = r]))))
ReasonListCases == FlattenSeq(Map(<<9, 11>>, LAMBDA t :
    Map(SetSeq(Reasons(t)), LAMBDA r : Good([Base(t) EXCEPT !.rcs = <<r>>]))
    \o <<Good([Base(t) EXCEPT !.rcs = SetSeq(Reasons(t))]), Good([Base(t) EXCEPT !.rcs = Rep(128, 130)])>>))
ConnackFlagCases == <<Good([Base(CONNACK) EXCEPT !.af = 1])>>
IdCases == FlattenSeq(Map(<<4, 5, 6, 7, 8, 9, 10, 11>>, LAMBDA t :
    Map(<<1, 255, 256, 65535>>, LAMBDA i : Good([Base(t) EXCEPT !.id = i]))))

PubFlags == SelectSeq(<<0, 1, 2, 3, 4, 5, 8, 9, 10, 11, 12, 13>>, LAMBDA f : TRUE)
PubCases == Map(PubFlags, LAMBDA f :
    Good([Base(PUBLISH) EXCEPT !.fl = f, !.id = IF (f \div 2) % 4 = 0 THEN -1 ELSE 513]))
Texts == <<<<>>, <<47>>, <<36, 83>>, <<32>>, <<126>>, <<194, 160>>, <<195, 169>>, <<223, 191>>,
           <<224, 160, 128>>, <<237, 159, 191>>, <<238, 128, 128>>, <<239, 187, 191>>, <<239, 191, 191>>,
           <<240, 144, 128, 128>>, <<244, 143, 191, 191>>, Rep(a, 127), Rep(a, 128)>>
TopicCases == Map(Texts, LAMBDA s : Good([Base(PUBLISH) EXCEPT !.topic = s]))
    \o Map(Texts, LAMBDA s : Good([Base(SUBSCRIBE) EXCEPT !.subs = <<<<s, 32>>>>]))
    \o Map(Texts, LAMBDA s : Good([Base(UNSUBSCRIBE) EXCEPT !.subs = <<<<s, 0>>>>]))
    \o Map(Texts, LAMBDA s : Good([Base(CONNECT) EXCEPT !.cid = s]))
    \o Map(Texts, LAMBDA s : Good([Base(CONNECT) EXCEPT !.cf = 130, !.user = <<s>>]))
    \o Map(Texts, LAMBDA s : Good([Base(WILL) EXCEPT !.will = <<[Will0 EXCEPT !.topic = s]>>]))
\* remaining lengths at the boundaries of their encoding; Base has 6 bytes before the payload
PayCases == Map(<<0, 1, 127 - 6, 128 - 6, 129 - 6, 16383 - 6, 16384 - 6, 65536, 2097151 - 6, 2097152 - 6>>,
    LAMBDA n : Good([Base(PUBLISH) EXCEPT !.pay = IF n = 0 THEN VB(<<>>)
                                                  ELSE IF n < 70 THEN VB(Rep(5, n))
                                                  ELSE [pre |-> <<9>>, n |-> n - 1, c |-> 5]]))
LongCases == <<Good([Base(PUBLISH) EXCEPT !.topic = Rep(a, 65535)]),
               Good([Base(CONNECT) EXCEPT !.cid = Rep(a, 65535)]),
               Good([Base(CONNECT) EXCEPT !.cf = 66, !.pass = <<Rep(0, 65535)>>]),
               Good([Base(SUBSCRIBE) EXCEPT !.subs = <<<<Rep(a, 65535), 33>>>>]),
               Good([Base(DISCONNECT) EXCEPT !.ps = <<<<31, Rep(a, 65535)>>>>])>>

FilterTexts == <<<<35>>, <<43>>, <<47, 35>>, <<43, 47, 43>>, <<a, 47, 43, 47, 35>>, <<47>>, <<43, 47>>,
                 <<47, 43>>, <<a, 47, 47, 98>>, <<36, 83, 47, 35>>>>
SubCases == Map(SetSeq({o \in 0..63 : SubOptionsOk(o)}), LAMBDA o :
        Good([Base(SUBSCRIBE) EXCEPT !.subs = <<<<<<a>>, o>>, <<<<98, 47, 35>>, 32>>>>]))
    \o Map(FilterTexts, LAMBDA s : Good([Base(SUBSCRIBE) EXCEPT !.subs = <<<<s, 32>>>>]))
    \o Map(FilterTexts, LAMBDA s : Good([Base(UNSUBSCRIBE) EXCEPT !.subs = <<<<s, 0>>, <<<<a>>, 0>>>>]))
    \o <<Good([Base(SUBSCRIBE) EXCEPT !.subs = Rep(<<<<a>>, 0>>, 40)]),
         Good([Base(UNSUBSCRIBE) EXCEPT !.subs = Rep(<<<<a>>, 0>>, 40)])>>
ConnFlags == SetSeq({f \in 0..255 : ConnectFlagsOk(f)})
ConnCases == Map(ConnFlags, LAMBDA f :
    Good([Base(CONNECT) EXCEPT !.cf = f, !.will = IF Bit(f, 2) = 1 THEN <<Will0>> ELSE <<>>,
          !.user = IF Bit(f, 7) = 1 THEN <<<<117, 115>>>> ELSE <<>>,
          !.pass = IF Bit(f, 6) = 1 THEN <<<<0, 255>>>> ELSE <<>>]))
    \o Map(<<0, 1, 256, 65535>>, LAMBDA k : Good([Base(CONNECT) EXCEPT !.keep = k]))
    \o Map(<<<<>>, <<0>>, Rep(255, 300)>>, LAMBDA s :
           Good([Base(WILL) EXCEPT !.will = <<[Will0 EXCEPT !.pay = s]>>, !.cf = 198,
                 !.pass = <<s>>, !.user = <<<<>>>>]))

-----------------------------------------------------------------------------
(* ill-formed packets *)
ForeignProps == FlattenSeq(Map(PropOwnersSeq, LAMBDA t :
    Map(SelectSeq(PropSeq, LAMBDA k : t \notin PropOwners(k)),
        LAMBDA k : BadP(WithProps(t, <<<<k, Val1(k)>>>>)))))
DoubleProps == FlattenSeq(Map(PropOwnersSeq, LAMBDA t :
    Map(SelectSeq(OwnProps(t), LAMBDA k : ~Repeatable(k)), LAMBDA k :
        BadP(WithProps(t, <<<<k, Val1(k)>>, <<k, Val1(k)>>>>)))))
\* not adjacent: a user property in between
SplitDoubleProps == FlattenSeq(Map(PropOwnersSeq, LAMBDA t :
    Map(SelectSeq(OwnProps(t), LAMBDA k : ~Repeatable(k)), LAMBDA k :
        BadP(WithProps(t, <<<<k, Vals(PropType(k))[1]>>, <<38, <<a>>>>, <<k, Val1(k)>>>>)))))
\* properties out of order are fine
Reversed == Map(PropOwnersSeq, LAMBDA t :
    BadP(WithProps(t, Reverse(Map(OwnProps(t), LAMBDA k : <<k, Val1(k)>>)))))
Frame(t, fl, body) == VB(<<t * 16 + fl>> \o VarEnc(Len(body)) \o body)
UnknownProps == Map(SetSeq((0..127) \ PropIds), LAMBDA k : Raw(Frame(DISCONNECT, 0, <<0, 2, k, 0>>)))
    \o <<Raw(Frame(DISCONNECT, 0, <<0, 5, 166, 1, 0, 1, 97>>)),      \* two-byte identifier 38 + 128
         Raw(Frame(DISCONNECT, 0, <<0, 5, 166, 0, 0, 1, 97>>)),      \* not minimal
         Raw(Frame(DISCONNECT, 0, <<0, 4, 31, 0, 1, 97>>))>>
BadReasons == FlattenSeq(Map(<<2, 4, 5, 6, 7, 14, 15>>, LAMBDA t :
        Map(SetSeq((0..255) \ Reasons(t)), LAMBDA r : BadP([Base(t) EXCEPT !.rc = r]))))
    \o FlattenSeq(Map(<<9, 11>>, LAMBDA t :
        Map(SetSeq((0..255) \ Reasons(t)), LAMBDA r : BadP([Base(t) EXCEPT !.rcs = <<0, r>>]))))
BadTexts == <<<<0>>, <<a, 31>>, <<127>>, <<194, 128>>, <<194, 159>>, <<128>>, <<a, 191>>, <<192, 128>>,
              <<193, 191>>, <<195>>, <<195, 40>>, <<224, 159, 191>>, <<237, 160, 128>>, <<237, 191, 191>>,
              <<239, 191>>, <<240, 143, 191, 191>>, <<244, 144, 128, 128>>, <<245, 128, 128, 128>>,
              <<255>>, <<240, 159, 166>>, <<195, 169, 169>>, <<10>>>>
BadTopicTexts == <<<<35>>, <<43>>, <<a, 47, 35>>, <<47, 43, 47>>, <<a, 43>>, <<35, a>>>>
BadFilterTexts == <<<<a, 35>>, <<35, 47>>, <<35, a>>, <<a, 43>>, <<43, a>>, <<47, 43, a>>, <<a, 47, 35, 47, a>>,
                    <<35, 35>>, <<43, 43>>, <<47, a, 35>>>>
BadTextCases ==
    Map(BadTexts \o BadTopicTexts \o BadFilterTexts, LAMBDA s : BadP([Base(PUBLISH) EXCEPT !.topic = s]))
    \o Map(BadTexts \o BadFilterTexts, LAMBDA s : BadP([Base(SUBSCRIBE) EXCEPT !.subs = <<<<<<a>>, 0>>, <<s, 32>>>>]))
    \o Map(BadTexts \o BadFilterTexts, LAMBDA s : BadP([Base(UNSUBSCRIBE) EXCEPT !.subs = <<<<s, 0>>, <<<<a>>, 0>>>>]))
    \o Map(BadTexts, LAMBDA s : BadP([Base(CONNECT) EXCEPT !.cid = s]))
    \o Map(BadTexts, LAMBDA s : BadP([Base(CONNECT) EXCEPT !.cf = 130, !.user = <<s>>]))
    \o Map(BadTexts, LAMBDA s : BadP([Base(WILL) EXCEPT !.will = <<[Will0 EXCEPT !.topic = s]>>]))
    \o FlattenSeq(Map(<<3, 8, 18, 21, 26, 28, 31, 38>>, LAMBDA k :
          Map(<<<<0>>, <<195>>, <<194, 133>>>>, LAMBDA s :
              BadP(WithProps(CHOOSE t \in PropOwners(k) : TRUE, <<<<k, s>>>>)))))
BadConnFlags == Map(SetSeq({f \in 0..255 : ~ConnectFlagsOk(f)}), LAMBDA f :
    BadP([Base(CONNECT) EXCEPT !.cf = f, !.will = IF Bit(f, 2) = 1 THEN <<Will0>> ELSE <<>>,
          !.user = IF Bit(f, 7) = 1 THEN <<<<117>>>> ELSE <<>>, !.pass = IF Bit(f, 6) = 1 THEN <<<<0>>>> ELSE <<>>]))
\* announced fields missing, unannounced fields present
MismatchConn == FlattenSeq(Map(<<2, 6, 66, 130, 194, 198>>, LAMBDA f :
    FlattenSeq(Map(<<TRUE, FALSE>>, LAMBDA w :
        FlattenSeq(Map(<<TRUE, FALSE>>, LAMBDA u :
            Map(<<TRUE, FALSE>>, LAMBDA q :
                BadP([Base(CONNECT) EXCEPT !.cf = f, !.will = IF w THEN <<Will0>> ELSE <<>>,
                      !.user = IF u THEN <<<<117>>>> ELSE <<>>, !.pass = IF q THEN <<<<0>>>> ELSE <<>>]))))))))
BadSubOptions == Map(SetSeq({o \in 0..255 : ~SubOptionsOk(o)}), LAMBDA o :
    BadP([Base(SUBSCRIBE) EXCEPT !.subs = <<<<<<a>>, o>>>>]))
BadConnackFlags == Map(<<2, 3, 128, 255>>, LAMBDA f : BadP([Base(CONNACK) EXCEPT !.af = f]))
Empties == <<BadP([Base(SUBSCRIBE) EXCEPT !.subs = <<>>]), BadP([Base(UNSUBSCRIBE) EXCEPT !.subs = <<>>]),
             BadP([Base(SUBACK) EXCEPT !.rcs = <<>>]), BadP([Base(UNSUBACK) EXCEPT !.rcs = <<>>])>>
Protocols == Map(<<<<0, 4, 77, 81, 84, 84, 4>>, <<0, 4, 77, 81, 84, 84, 3>>, <<0, 4, 77, 81, 84, 84, 6>>,
                   <<0, 4, 77, 81, 84, 116, 5>>, <<0, 6, 77, 81, 73, 115, 100, 112, 3>>, <<0, 3, 77, 81, 84, 5>>,
                   <<0, 5, 77, 81, 84, 84, 84, 5>>, <<0, 0, 5>>, <<255, 255, 5>>, <<0, 4, 77, 81, 84, 84, 5>>>>,
                 LAMBDA s : Raw(Frame(CONNECT, 0, s \o <<2, 0, 9, 0, 0, 1, 97>>)))
FirstBytes == Map(SetSeq(0..255), LAMBDA x : Raw(VB(<<x, 0>>)))
    \o Map(SetSeq(0..255), LAMBDA x : Raw(VB(<<x, 2, 0, 0>>)))
    \o Map(SetSeq(0..255), LAMBDA x : Raw(VB(<<x, 7, 0, 1, 97, 0, 0, 1, 2>>)))
    \o Map(SetSeq(0..255), LAMBDA x : Raw(VB(<<x>>)))
\* remaining length fields, complete and not, minimal and not
LenCases == Map(<<<<128>>, <<128, 0>>, <<128, 1>>, <<255, 127>>, <<128, 128, 0>>, <<128, 128, 1>>, <<255, 255, 127>>,
                  <<128, 128, 128, 0>>, <<128, 128, 128, 1>>, <<255, 255, 255, 127>>, <<128, 128, 128, 128>>,
                  <<255, 255, 255, 255>>, <<128, 128, 128, 128, 0>>, <<255, 255, 255, 255, 127>>, <<130, 0>>,
                  <<130, 128, 0>>, <<255, 255, 255>>>>,
                LAMBDA s : Raw(VB(<<224>> \o s \o <<0, 0>>)))
    \o Map(<<<<128>>, <<128, 128>>, <<128, 128, 128>>, <<255, 255, 255, 255>>, <<255, 255, 255, 127>>>>,
                LAMBDA s : Raw(VB(<<48>> \o s)))
\* the property length does not agree with the frame
PropLens == Map(<<<<0, 128, 0>>, <<0, 1>>, <<0, 1, 38>>, <<0, 4, 38, 0, 1>>, <<0, 3, 38, 0, 1, 97>>,
                  <<0, 5, 38, 0, 1, 97>>, <<0, 4, 38, 0, 2, 97>>, <<0, 2, 38, 0, 1, 97>>, <<0, 0, 0>>,
                  <<0, 255, 255, 255, 127>>, <<0, 128, 128, 128, 128, 1>>, <<0>>, <<>>, <<0, 128>>,
                  <<0, 8, 38, 0, 1, 97, 38, 0, 1, 98>>, <<0, 7, 38, 0, 1, 97, 38, 0, 1, 98>>,
                  <<0, 4, 38, 0, 1, 97, 38, 0, 1, 98>>>>, LAMBDA s : Raw(Frame(DISCONNECT, 0, s)))
    \o Map(<<<<0, 1, 97, 1>>, <<0, 1, 97, 2, 1>>, <<0, 1, 97, 2, 1, 0, 9>>, <<0, 1, 97, 3, 1, 0>>, <<0, 9, 97, 0>>,
             <<0, 1>>, <<0>>, <<>>, <<0, 1, 97>>, <<0, 1, 97, 6, 11, 255, 255, 255, 127, 1>>,
             <<0, 1, 97, 6, 11, 255, 255, 255, 255, 1>>, <<0, 1, 97, 3, 11, 128, 0>>>>,
           LAMBDA s : Raw(Frame(PUBLISH, 0, s)))
Pings == Map(<<<<0>>, <<1, 2, 3>>>>, LAMBDA s : Raw(Frame(PINGREQ, 0, s)))
    \o Map(<<<<0>>, <<1, 2, 3>>>>, LAMBDA s : Raw(Frame(PINGRESP, 0, s)))
Trailing == Map(Types, LAMBDA t : LET e == EncBody(Base(t)) IN Raw(Frame(t, Base(t).fl, e \o <<0>>)))

Good0 == BaseCases \o OnePropCases \o AllPropCases \o UserPropCases \o PropLenCases \o ReasonCases
         \o ReasonListCases \o ConnackFlagCases \o IdCases \o PubCases \o TopicCases \o SubCases
         \o ConnCases \o PayCases \o LongCases
Bad0 == ForeignProps \o DoubleProps \o SplitDoubleProps \o Reversed \o UnknownProps \o BadReasons \o BadTextCases
        \o BadConnFlags \o MismatchConn \o BadSubOptions \o BadConnackFlags \o Empties \o Protocols
        \o FirstBytes \o LenCases \o PropLens \o Pings \o Trailing

\* the specification agrees with itself on every well-formed packet
Agrees(c) == LET d == Decode(c.b) IN
             /\ d.s = "ok" /\ d.n = VLen(c.b)
             /\ d.p.t = c.p.t /\ VEq(d.p.pay, c.p.pay)
             /\ [d.p EXCEPT !.pay = 0] = [c.p EXCEPT !.pay = 0]
VARIABLE cases
Init == /\ cases = TLCEval(Good0 \o Bad0)
        /\ ndJsonSerialize(IOEnv.OUT, cases)
        /\ PrintT(<<"cases", Len(cases)>>)
SelfCheck == \A i \in 1..Len(cases) : cases[i].api => Agrees(cases[i])
Next == FALSE /\ cases' = cases
=============================================================================

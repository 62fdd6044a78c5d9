------------------------------ MODULE MqttWire ------------------------------
(***************************************************************************)
(* The MQTT 5 wire format as this library uses it, as pure operators over  *)
(* byte sequences: what a frame is, which frames are well-formed, which    *)
(* packet a well-formed frame carries (Decode) and which bytes a packet is *)
(* written as (Encode).                                                    *)
(*                                                                         *)
(* Byte strings are "virtual": [pre, n, c] stands for the bytes pre        *)
(* followed by n times the byte c, so that frames of megabytes are cheap.  *)
(*                                                                         *)
(* Packets are records with the same fields for every packet type:         *)
(*   t     control packet type, 1..15                                      *)
(*   fl    flags of the fixed header                                       *)
(*   id    packet identifier, -1 if absent                                 *)
(*   rc    reason code, -1 if absent                                       *)
(*   ps    properties, a sequence of <<identifier, value bytes>>, ordered  *)
(*         by identifier, equal identifiers in wire order                  *)
(*   topic publish topic                                                   *)
(*   pay   publish payload (virtual)                                       *)
(*   cid, keep, cf, will, user, pass     CONNECT fields                    *)
(*   af    CONNACK flags                                                   *)
(*   subs  filters: sequence of <<filter bytes, option byte>>              *)
(*   rcs   reason code list                                                *)
(* Integers wider than 2 bytes are kept as byte sequences: TLC integers    *)
(* have 32 bits.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONNECT == 1      CONNACK == 2   PUBLISH == 3     PUBACK == 4
PUBREC == 5       PUBREL == 6    PUBCOMP == 7     SUBSCRIBE == 8
SUBACK == 9       UNSUBSCRIBE == 10  UNSUBACK == 11
PINGREQ == 12     PINGRESP == 13 DISCONNECT == 14 AUTH == 15
WILL == 16        \* not a packet type, but an owner of properties

-----------------------------------------------------------------------------
(* virtual byte strings *)
VB(s) == [pre |-> s, n |-> 0, c |-> 0]
VLen(b) == Len(b.pre) + b.n
At(b, i) == IF i <= Len(b.pre) THEN b.pre[i] ELSE b.c
\* the bytes i..j-1 as a plain sequence
Slice(b, i, j) == IF j - 1 <= Len(b.pre) THEN SubSeq(b.pre, i, j - 1)
                  ELSE [k \in 1..(j - i) |-> At(b, i + k - 1)]
\* the bytes i..e-1 as a virtual string; e - 1 is within b
VSlice(b, i, e) ==
    IF e - 1 <= Len(b.pre) THEN VB(SubSeq(b.pre, i, e - 1))
    ELSE LET k == IF i > Len(b.pre) THEN i - Len(b.pre) - 1 ELSE 0
         IN  [pre |-> SubSeq(b.pre, i, Len(b.pre)),
              n |-> e - 1 - Len(b.pre) - k, c |-> b.c]
VPrefix(b, k) == IF k <= Len(b.pre) THEN VB(SubSeq(b.pre, 1, k))
                 ELSE [b EXCEPT !.n = k - Len(b.pre)]
\* equality of the byte strings denoted, without expanding either
VEq(a, b) ==
    /\ VLen(a) = VLen(b)
    /\ LET m == IF Len(a.pre) > Len(b.pre) THEN Len(a.pre) ELSE Len(b.pre)
       IN  /\ \A i \in 1..m : At(a, i) = At(b, i)
           /\ VLen(a) > m => a.c = b.c

-----------------------------------------------------------------------------
(* 1.5.5 variable byte integers *)
MaxVar == 268435455
RECURSIVE VarEnc(_)
VarEnc(x) == IF x < 128 THEN <<x>> ELSE <<(x % 128) + 128>> \o VarEnc(x \div 128)
\* read at position p, bytes from e on do not exist:
\* "more" (ends too early), "bad" (too long or not minimal) or "ok"
RECURSIVE VarDecN(_, _, _, _, _, _)
VarDecN(b, p, e, k, m, acc) ==
    IF k > 4 THEN [s |-> "bad", p |-> p, v |-> 0]
    ELSE IF p >= e THEN [s |-> "more", p |-> p, v |-> 0]
    ELSE LET x == At(b, p) IN
         IF x >= 128
         THEN IF k = 4 THEN [s |-> "bad", p |-> p, v |-> 0]
              ELSE VarDecN(b, p + 1, e, k + 1, m * 128, acc + (x - 128) * m)
         ELSE IF x = 0 /\ k > 1 THEN [s |-> "bad", p |-> p, v |-> 0]
         ELSE [s |-> "ok", p |-> p + 1, v |-> acc + x * m]
VarDec(b, p, e) == VarDecN(b, p, e, 1, 1, 0)
\* the value of a variable byte integer as four bytes, most significant first
Four(x) == <<x \div 16777216, (x \div 65536) % 256, (x \div 256) % 256, x % 256>>
FourVal(q) == q[1] * 16777216 + q[2] * 65536 + q[3] * 256 + q[4]  \* for q[1] < 128
Two(x) == <<x \div 256, x % 256>>

-----------------------------------------------------------------------------
(* 1.5.4 strings: well-formed UTF-8, no surrogates, no control characters *)
IsCont(x) == x >= 128 /\ x <= 191
Need(x) == IF x < 128 THEN 0 ELSE IF x < 194 THEN -1 ELSE IF x < 224 THEN 1
           ELSE IF x < 240 THEN 2 ELSE IF x < 245 THEN 3 ELSE -1
SecondOk(x, y) == CASE x = 224 -> y >= 160
                    [] x = 237 -> y < 160
                    [] x = 240 -> y >= 144
                    [] x = 244 -> y < 144
                    [] x = 194 -> y >= 160      \* U+0080..U+009F are control characters
                    [] OTHER -> TRUE
GoodText(s) ==
    LET L == Len(s) IN
    \A i \in 1..L :
        LET x == s[i] IN
        IF x < 128 THEN x >= 32 /\ x # 127
        ELSE IF IsCont(x)
        THEN \E k \in 1..3 : i - k >= 1 /\ Need(s[i - k]) >= k
                                /\ \A j \in 1..(k - 1) : IsCont(s[i - j])
        ELSE LET k == Need(x) IN
             /\ k > 0 /\ i + k <= L
             /\ \A j \in 1..k : IsCont(s[i + j])
             /\ SecondOk(x, s[i + 1])
GoodString(s) == Len(s) <= 65535 /\ GoodText(s)

(* 4.7 topics *)
Hash == 35  Plus == 43  Slash == 47
GoodFilter(s) ==
    \A i \in 1..Len(s) :
        /\ s[i] = Hash => i = Len(s) /\ (i = 1 \/ s[i - 1] = Slash)
        /\ s[i] = Plus => /\ i = 1 \/ s[i - 1] = Slash
                          /\ i = Len(s) \/ s[i + 1] = Slash
HasWildcard(s) == \E i \in 1..Len(s) : s[i] \in {Hash, Plus}
FilterOk(s) == GoodString(s) /\ GoodFilter(s)
TopicOk(s) == GoodString(s) /\ ~HasWildcard(s)

-----------------------------------------------------------------------------
(* 2.2.2.2 properties: value type, where they may appear, repeatable.      *)
(* User properties are a single string in this library (MQTT: a pair).     *)
PropIds == {1, 2, 3, 8, 9, 11, 17, 18, 19, 21, 22, 23, 24, 25, 26, 28, 31,
            33, 34, 35, 36, 37, 38, 39, 40, 41, 42}
PropType(k) ==
    CASE k \in {1, 36, 37} -> "byte"
      [] k \in {23, 25, 40, 41, 42} -> "bool"
      [] k \in {19, 33, 34, 35} -> "u16"
      [] k \in {2, 17, 24, 39} -> "u32"
      [] k = 11 -> "var"
      [] k \in {3, 8, 18, 21, 26, 28, 31, 38} -> "str"
      [] k \in {9, 22} -> "bin"
PropOwners(k) ==
    CASE k \in {1, 2, 3, 8, 9} -> {PUBLISH, WILL}
      [] k = 11 -> {PUBLISH, SUBSCRIBE}
      [] k = 17 -> {CONNECT, CONNACK, DISCONNECT}
      [] k \in {18, 19, 26, 36, 37, 40, 41, 42} -> {CONNACK}
      [] k \in {21, 22} -> {CONNECT, CONNACK, AUTH}
      [] k \in {23, 25} -> {CONNECT}
      [] k = 24 -> {WILL}
      [] k = 28 -> {CONNACK, DISCONNECT}
      [] k = 31 -> {CONNACK, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK,
                    DISCONNECT, AUTH}
      [] k \in {33, 34, 39} -> {CONNECT, CONNACK}
      [] k = 35 -> {PUBLISH}
      [] k = 38 -> (1..16) \ {PINGREQ, PINGRESP}
Repeatable(k) == k = 38

Fail == [ok |-> FALSE, p |-> 0, v |-> <<>>]
Ok(p, v) == [ok |-> TRUE, p |-> p, v |-> v]

\* fixed width fields, as bytes
Fixed(b, p, e, k) == IF p + k > e THEN Fail ELSE Ok(p + k, Slice(b, p, p + k))
\* length-prefixed bytes
Bin(b, p, e) ==
    IF p + 2 > e THEN Fail
    ELSE LET k == At(b, p) * 256 + At(b, p + 1)
         IN  IF p + 2 + k > e THEN Fail ELSE Ok(p + 2 + k, Slice(b, p + 2, p + 2 + k))
Str(b, p, e) == LET r == Bin(b, p, e)
                IN  IF r.ok /\ GoodText(r.v) THEN r ELSE Fail
PropVal(b, p, e, ty) ==
    CASE ty \in {"byte", "bool"} -> Fixed(b, p, e, 1)
      [] ty = "u16" -> Fixed(b, p, e, 2)
      [] ty = "u32" -> Fixed(b, p, e, 4)
      [] ty = "str" -> Str(b, p, e)
      [] ty = "bin" -> Bin(b, p, e)
      [] ty = "var" -> LET r == VarDec(b, p, e)
                       IN  IF r.s = "ok" THEN Ok(r.p, Four(r.v)) ELSE Fail

\* the properties in canonical order: by identifier, then as they came
RECURSIVE InsertProp(_, _)
InsertProp(ps, x) ==     \* insert behind all properties with an identifier <= x[1]
    IF ps = <<>> \/ ps[Len(ps)][1] <= x[1] THEN Append(ps, x)
    ELSE Append(InsertProp(SubSeq(ps, 1, Len(ps) - 1), x), ps[Len(ps)])
HasProp(ps, k) == \E i \in 1..Len(ps) : ps[i][1] = k

RECURSIVE PropList(_, _, _, _, _)
PropList(b, p, e, owner, acc) ==
    IF p = e THEN Ok(p, acc)
    ELSE LET k == VarDec(b, p, e) IN
         IF k.s # "ok" \/ k.v \notin PropIds THEN Fail
         ELSE IF owner \notin PropOwners(k.v) THEN Fail
         ELSE IF ~Repeatable(k.v) /\ HasProp(acc, k.v) THEN Fail
         ELSE LET r == PropVal(b, k.p, e, PropType(k.v)) IN
              IF ~r.ok THEN Fail
              ELSE PropList(b, r.p, e, owner, InsertProp(acc, <<k.v, r.v>>))
Props(b, p, e, owner) ==
    LET l == VarDec(b, p, e) IN
    IF l.s # "ok" \/ l.p + l.v > e THEN Fail
    ELSE PropList(b, l.p, l.p + l.v, owner, <<>>)

-----------------------------------------------------------------------------
(* 2.4 reason codes *)
Reasons(t) ==
    CASE t = CONNACK -> {0} \cup (128..138) \cup {140, 144, 149, 151} \cup (153..157) \cup {159}
      [] t \in {PUBACK, PUBREC} -> {0, 16, 128, 131, 135, 144, 145, 151, 153}
      [] t \in {PUBREL, PUBCOMP} -> {0, 146}
      [] t = SUBACK -> {0, 1, 2, 128, 131, 135, 143, 145, 151, 158, 161, 162}
      [] t = UNSUBACK -> {0, 17, 128, 131, 135, 143, 145}
      [] t = DISCONNECT -> {0, 4, 135, 137} \cup (128..131) \cup (139..144) \cup (147..162)
      [] t = AUTH -> {0, 24, 25}
      [] OTHER -> {}

FixedFlagsOk(t, fl) ==
    CASE t = 0 -> FALSE
      [] t = PUBLISH -> (fl \div 2) % 4 # 3
      [] t \in {PUBREL, SUBSCRIBE, UNSUBSCRIBE} -> fl = 2
      [] OTHER -> fl = 0
Bit(x, k) == (x \div (2 ^ k)) % 2
ConnectFlagsOk(f) ==
    /\ Bit(f, 0) = 0
    /\ (f \div 8) % 4 # 3
    /\ Bit(f, 2) = 0 => Bit(f, 3) = 0 /\ Bit(f, 4) = 0 /\ Bit(f, 5) = 0
SubOptionsOk(o) == o < 64 /\ o % 4 # 3 /\ o \div 16 # 3

NoPacket == [t |-> 0, fl |-> 0, id |-> -1, rc |-> -1, ps |-> <<>>, topic |-> <<>>,
             pay |-> VB(<<>>), cid |-> <<>>, keep |-> 0, cf |-> 0, will |-> <<>>,
             user |-> <<>>, pass |-> <<>>, af |-> 0, subs |-> <<>>, rcs |-> <<>>]

\* a recorded packet leaves out fields that have their default value
Full(r) == r @@ NoPacket

Bad == [s |-> "bad"]
More == [s |-> "more"]
Accept(p) == [s |-> "ok", p |-> p]

\* the body of a frame lies at p..e-1; every byte of it must be accounted for
DecConnect(b, p, e) ==
    IF p + 10 > e \/ Slice(b, p, p + 7) # <<0, 4, 77, 81, 84, 84, 5>> THEN Bad
    ELSE LET f == At(b, p + 7)
             keep == At(b, p + 8) * 256 + At(b, p + 9)
             ps == Props(b, p + 10, e, CONNECT) IN
    IF ~ConnectFlagsOk(f) \/ ~ps.ok THEN Bad
    ELSE LET cid == Str(b, ps.p, e) IN
    IF ~cid.ok THEN Bad
    ELSE LET wps == IF Bit(f, 2) = 1 THEN Props(b, cid.p, e, WILL) ELSE Ok(cid.p, <<>>)
             wt == IF Bit(f, 2) = 1 /\ wps.ok THEN Str(b, wps.p, e) ELSE wps
             wp == IF Bit(f, 2) = 1 /\ wt.ok THEN Bin(b, wt.p, e) ELSE wt
             us == IF Bit(f, 7) = 1 /\ wp.ok THEN Str(b, wp.p, e) ELSE wp
             pw == IF Bit(f, 6) = 1 /\ us.ok THEN Bin(b, us.p, e) ELSE us IN
    IF ~pw.ok \/ pw.p # e THEN Bad
    ELSE Accept([NoPacket EXCEPT !.t = CONNECT, !.cf = f, !.keep = keep, !.ps = ps.v,
                 !.cid = cid.v,
                 !.will = IF Bit(f, 2) = 1
                          THEN <<[ps |-> wps.v, topic |-> wt.v, pay |-> wp.v]>> ELSE <<>>,
                 !.user = IF Bit(f, 7) = 1 THEN <<us.v>> ELSE <<>>,
                 !.pass = IF Bit(f, 6) = 1 THEN <<pw.v>> ELSE <<>>])

DecConnack(b, p, e) ==
    IF p + 2 > e THEN Bad
    ELSE LET ps == Props(b, p + 2, e, CONNACK) IN
    IF At(b, p) > 1 \/ At(b, p + 1) \notin Reasons(CONNACK) \/ ~ps.ok \/ ps.p # e THEN Bad
    ELSE Accept([NoPacket EXCEPT !.t = CONNACK, !.af = At(b, p), !.rc = At(b, p + 1),
                                 !.ps = ps.v])

DecPublish(b, p, e, fl) ==
    LET tp == Str(b, p, e) IN
    IF ~tp.ok \/ HasWildcard(tp.v) THEN Bad
    ELSE LET q == (fl \div 2) % 4
             id == IF q = 0 THEN Ok(tp.p, <<>>) ELSE Fixed(b, tp.p, e, 2)
             ps == IF id.ok THEN Props(b, id.p, e, PUBLISH) ELSE Fail IN
    IF ~ps.ok THEN Bad
    ELSE Accept([NoPacket EXCEPT !.t = PUBLISH, !.fl = fl, !.topic = tp.v, !.ps = ps.v,
                 !.id = IF q = 0 THEN -1 ELSE id.v[1] * 256 + id.v[2],
                 !.pay = VSlice(b, ps.p, e)])

DecAck(b, p, e, t) ==      \* PUBACK, PUBREC, PUBREL, PUBCOMP in their long form
    IF p + 3 > e THEN Bad
    ELSE LET ps == Props(b, p + 3, e, t) IN
    IF At(b, p + 2) \notin Reasons(t) \/ ~ps.ok \/ ps.p # e THEN Bad
    ELSE Accept([NoPacket EXCEPT !.t = t, !.id = At(b, p) * 256 + At(b, p + 1),
                                 !.rc = At(b, p + 2), !.ps = ps.v,
                                 !.fl = IF t = PUBREL THEN 2 ELSE 0])

DecReason(b, p, e, t) ==   \* DISCONNECT, AUTH in their long form
    IF p + 1 > e THEN Bad
    ELSE LET ps == Props(b, p + 1, e, t) IN
    IF At(b, p) \notin Reasons(t) \/ ~ps.ok \/ ps.p # e THEN Bad
    ELSE Accept([NoPacket EXCEPT !.t = t, !.rc = At(b, p), !.ps = ps.v])

RECURSIVE Filters(_, _, _, _, _)
Filters(b, p, e, opts, acc) ==
    IF p = e THEN Ok(p, acc)
    ELSE LET f == Str(b, p, e) IN
         IF ~f.ok \/ ~GoodFilter(f.v) THEN Fail
         ELSE IF ~opts THEN Filters(b, f.p, e, opts, Append(acc, <<f.v, 0>>))
         ELSE IF f.p >= e \/ ~SubOptionsOk(At(b, f.p)) THEN Fail
         ELSE Filters(b, f.p + 1, e, opts, Append(acc, <<f.v, At(b, f.p)>>))
DecFilters(b, p, e, t) ==
    IF p + 2 > e THEN Bad
    ELSE LET ps == Props(b, p + 2, e, t) IN
    IF ~ps.ok THEN Bad
    ELSE LET fs == Filters(b, ps.p, e, t = SUBSCRIBE, <<>>) IN
    IF ~fs.ok \/ fs.v = <<>> THEN Bad
    ELSE Accept([NoPacket EXCEPT !.t = t, !.fl = 2, !.id = At(b, p) * 256 + At(b, p + 1),
                                 !.ps = ps.v, !.subs = fs.v])
DecReasons(b, p, e, t) ==
    IF p + 2 > e THEN Bad
    ELSE LET ps == Props(b, p + 2, e, t) IN
    IF ~ps.ok \/ ps.p = e THEN Bad
    ELSE LET rcs == Slice(b, ps.p, e) IN
    IF \E i \in 1..Len(rcs) : rcs[i] \notin Reasons(t) THEN Bad
    ELSE Accept([NoPacket EXCEPT !.t = t, !.id = At(b, p) * 256 + At(b, p + 1),
                                 !.ps = ps.v, !.rcs = rcs])

DecBody(b, p, e, t, fl) ==
    CASE t = CONNECT -> DecConnect(b, p, e)
      [] t = CONNACK -> DecConnack(b, p, e)
      [] t = PUBLISH -> DecPublish(b, p, e, fl)
      [] t \in {PUBACK, PUBREC, PUBREL, PUBCOMP} -> DecAck(b, p, e, t)
      [] t \in {SUBSCRIBE, UNSUBSCRIBE} -> DecFilters(b, p, e, t)
      [] t \in {SUBACK, UNSUBACK} -> DecReasons(b, p, e, t)
      [] t \in {PINGREQ, PINGRESP} -> IF p = e THEN Accept([NoPacket EXCEPT !.t = t]) ELSE Bad
      [] t \in {DISCONNECT, AUTH} -> DecReason(b, p, e, t)

\* How far the frame at the start of b reaches: "more" if that cannot be
\* told yet or not all of it is there, "bad" if the header is malformed
FrameOf(b) ==
    IF VLen(b) < 1 THEN [s |-> "more", p |-> 0, e |-> 0]
    ELSE IF ~FixedFlagsOk(At(b, 1) \div 16, At(b, 1) % 16) THEN [s |-> "bad", p |-> 0, e |-> 0]
    ELSE LET l == VarDec(b, 2, VLen(b) + 1) IN
         IF l.s # "ok" THEN [s |-> l.s, p |-> 0, e |-> 0]
         ELSE IF l.p + l.v > VLen(b) + 1 THEN [s |-> "more", p |-> l.p, e |-> l.p + l.v]
         ELSE [s |-> "ok", p |-> l.p, e |-> l.p + l.v]

\* the first packet in b: [s |-> "ok", n, p], "more" or "bad"
Decode(b) ==
    LET f == FrameOf(b) IN
    IF f.s # "ok" THEN [s |-> f.s]
    ELSE LET d == DecBody(b, f.p, f.e, At(b, 1) \div 16, At(b, 1) % 16) IN
         IF d.s = "ok" THEN [s |-> "ok", n |-> f.e - 1, p |-> d.p] ELSE Bad

-----------------------------------------------------------------------------
(* The reverse direction: the bytes of a packet *)
EncBin(s) == Two(Len(s)) \o s
EncPropVal(k, v) == CASE PropType(k) \in {"str", "bin"} -> EncBin(v)
                      [] PropType(k) = "var" -> VarEnc(FourVal(v))
                      [] OTHER -> v
RECURSIVE EncPropList(_)
EncPropList(ps) == IF ps = <<>> THEN <<>>
                   ELSE <<ps[1][1]>> \o EncPropVal(ps[1][1], ps[1][2]) \o EncPropList(Tail(ps))
EncProps(ps) == LET l == EncPropList(ps) IN VarEnc(Len(l)) \o l
RECURSIVE EncFilters(_, _)
EncFilters(subs, opts) ==
    IF subs = <<>> THEN <<>>
    ELSE EncBin(subs[1][1]) \o (IF opts THEN <<subs[1][2]>> ELSE <<>>) \o EncFilters(Tail(subs), opts)
EncBody(p) ==
    CASE p.t = CONNECT ->
            <<0, 4, 77, 81, 84, 84, 5, p.cf>> \o Two(p.keep) \o EncProps(p.ps) \o EncBin(p.cid)
            \o (IF p.will = <<>> THEN <<>>
                ELSE EncProps(p.will[1].ps) \o EncBin(p.will[1].topic) \o EncBin(p.will[1].pay))
            \o (IF p.user = <<>> THEN <<>> ELSE EncBin(p.user[1]))
            \o (IF p.pass = <<>> THEN <<>> ELSE EncBin(p.pass[1]))
      [] p.t = CONNACK -> <<p.af, p.rc>> \o EncProps(p.ps)
      [] p.t = PUBLISH -> EncBin(p.topic) \o (IF p.id = -1 THEN <<>> ELSE Two(p.id)) \o EncProps(p.ps)
      [] p.t \in {PUBACK, PUBREC, PUBREL, PUBCOMP} -> Two(p.id) \o <<p.rc>> \o EncProps(p.ps)
      [] p.t \in {SUBSCRIBE, UNSUBSCRIBE} ->
            Two(p.id) \o EncProps(p.ps) \o EncFilters(p.subs, p.t = SUBSCRIBE)
      [] p.t \in {SUBACK, UNSUBACK} -> Two(p.id) \o EncProps(p.ps) \o p.rcs
      [] p.t \in {PINGREQ, PINGRESP} -> <<>>
      [] p.t \in {DISCONNECT, AUTH} -> <<p.rc>> \o EncProps(p.ps)
Encode(p) ==
    LET body == EncBody(p)
        L == Len(body) + VLen(p.pay)
        head == <<p.t * 16 + p.fl>> \o VarEnc(L) \o body
    IN  [pre |-> head \o p.pay.pre, n |-> p.pay.n, c |-> p.pay.c]
-----------------------------------------------------------------------------
(* Values that MQTT forbids by range only, in fields that are otherwise in *)
(* place.  The library accepts them; this specification leaves it open.    *)
RangeOk(k, v) ==
    CASE k \in {1, 23, 25, 36, 37, 40, 41, 42} -> v[1] <= 1
      [] k \in {11, 33, 35, 39} -> \E j \in 1..Len(v) : v[j] # 0
      [] OTHER -> TRUE
PropsStrict(ps) == \A j \in 1..Len(ps) : RangeOk(ps[j][1], ps[j][2])
Strict(p) ==
    /\ PropsStrict(p.ps)
    /\ p.will # <<>> => PropsStrict(p.will[1].ps)
    /\ p.id # 0
    /\ p.t = PUBLISH => ~(p.fl \div 8 = 1 /\ (p.fl \div 2) % 4 = 0)
    /\ p.t = CONNACK => (p.af = 1 => p.rc = 0)
\* what a boolean other than 0 and 1 reads as is left open as well
SameProps(ps, qs) ==
    /\ Len(ps) = Len(qs)
    /\ \A j \in 1..Len(ps) :
          /\ ps[j][1] = qs[j][1]
          /\ \/ ps[j][2] = qs[j][2]
             \/ PropType(ps[j][1]) = "bool" /\ (ps[j][2][1] > 1 \/ qs[j][2][1] > 1)
SameWill(w, x) ==
    /\ Len(w) = Len(x)
    /\ w # <<>> => /\ w[1].topic = x[1].topic /\ w[1].pay = x[1].pay
                   /\ SameProps(w[1].ps, x[1].ps)
\* the packet q as observed through the accessors is p; an UNSUBSCRIBE does
\* not let its identifier be observed
Same(p, q) ==
    /\ p.t = q.t /\ p.fl = q.fl /\ p.rc = q.rc /\ p.topic = q.topic /\ p.cid = q.cid
    /\ p.id = q.id \/ (p.t = UNSUBSCRIBE /\ (p.id = -1 \/ q.id = -1))
    /\ p.keep = q.keep /\ p.cf = q.cf /\ p.user = q.user /\ p.pass = q.pass
    /\ p.af = q.af /\ p.subs = q.subs /\ p.rcs = q.rcs
    /\ VEq(p.pay, q.pay)
    /\ SameProps(p.ps, q.ps)
    /\ SameWill(p.will, q.will)

Header(b) == IF VLen(b) < 1 THEN [s |-> "more", p |-> 0, v |-> 0]
             ELSE VarDec(b, 2, VLen(b) + 1)
IsWhole(b, h) == h.s = "ok" /\ h.p + h.v <= VLen(b) + 1

=============================================================================

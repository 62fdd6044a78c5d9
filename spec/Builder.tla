------------------------------ MODULE Builder ------------------------------
(***************************************************************************)
(* The packet builders as a state machine.  The state is the packet under  *)
(* construction (a record of MqttWire) and a last will under construction; *)
(* a call either succeeds and changes exactly what it is for, or it is     *)
(* refused and changes nothing.                                            *)
(*                                                                         *)
(* A call is a record [op, k, n, ty, a, b, p]: its name, a property        *)
(* identifier, a number, a value type, two texts (virtual byte strings)    *)
(* and a packet.                                                           *)
(***************************************************************************)
EXTENDS MqttWire, TLC

Start == [p |-> NoPacket, w |-> <<>>]
Flat(v) == Slice(v, 1, VLen(v) + 1)

\* can a value of this type be made?
ValueOk(ty, v) == CASE ty \in {"str", "pair"} -> VLen(v) <= 65535 /\ GoodText(Flat(v))
                    [] ty = "bin" -> VLen(v) <= 65535
                    [] ty = "var" -> At(v, 1) < 16
                    [] OTHER -> TRUE
PropOk(owner, k, ty, v) == ValueOk(ty, v) /\ ty = PropType(k) /\ owner \in PropOwners(k)
PropPut(ps, k, v) ==
    IF ~Repeatable(k) /\ HasProp(ps, k)
    THEN [j \in 1..Len(ps) |-> IF ps[j][1] = k THEN <<k, v>> ELSE ps[j]]
    ELSE InsertProp(ps, <<k, v>>)

TextOk(v) == VLen(v) <= 65535 /\ GoodText(Flat(v))
NameOk(v) == VLen(v) <= 65535 /\ TopicOk(Flat(v))
FiltOk(v) == VLen(v) <= 65535 /\ FilterOk(Flat(v))
DataOk(v) == VLen(v) <= 65535

WithBit(f, k) == IF Bit(f, k) = 1 THEN f ELSE f + 2 ^ k
WithQoS(f, at, q) == f - ((f \div (2 ^ at)) % 4) * (2 ^ at) + q * (2 ^ at)

\* is the call to succeed?
Allowed(st, c) ==
    LET p == st.p IN
    CASE c.op = "connect" -> TextOk(c.a)
      [] c.op = "publish" -> NameOk(c.a)
      [] c.op \in {"new", "parse"} -> TRUE
      [] c.op = "prop" -> PropOk(p.t, c.k, c.ty, c.a)
      [] c.op = "wprop" -> PropOk(WILL, c.k, c.ty, c.a)
      [] c.op = "wnew" -> TextOk(c.a) /\ DataOk(c.b)
      [] c.op = "wtopic" -> TextOk(c.a)
      [] c.op = "wpay" -> DataOk(c.a)
      [] c.op = "user" -> TextOk(c.a)
      [] c.op = "pass" -> DataOk(c.a)
      [] c.op \in {"wqos", "wretain"} -> p.will # <<>>
      [] c.op = "id" -> (p.fl \div 2) % 4 # 0
      [] c.op = "sub" -> SubOptionsOk(c.n) /\ FiltOk(c.a)
      [] c.op = "unsub" -> FiltOk(c.a)
      [] OTHER -> TRUE      \* will, clean, keep, retain, dup, qos, pay, rc, reason, sp, build

\* what a successful call does
Effect(st, c) ==
    LET p == st.p
        w == st.w
        P(q) == [st EXCEPT !.p = q]
        W(x) == [st EXCEPT !.w = <<x>>]
    IN
    CASE c.op = "connect" -> P([NoPacket EXCEPT !.t = CONNECT, !.cid = Flat(c.a)])
      [] c.op = "publish" -> P([NoPacket EXCEPT !.t = PUBLISH, !.topic = Flat(c.a), !.pay = c.b])
      [] c.op \in {"new", "parse"} -> P(c.p)
      [] c.op = "prop" -> P([p EXCEPT !.ps = PropPut(p.ps, c.k, Flat(c.a))])
      [] c.op = "wprop" -> W([w[1] EXCEPT !.ps = PropPut(w[1].ps, c.k, Flat(c.a))])
      [] c.op = "wnew" -> W([ps |-> <<>>, topic |-> Flat(c.a), pay |-> Flat(c.b)])
      [] c.op = "wtopic" -> W([w[1] EXCEPT !.topic = Flat(c.a)])
      [] c.op = "wpay" -> W([w[1] EXCEPT !.pay = Flat(c.a)])
      [] c.op = "will" -> P([p EXCEPT !.will = w, !.cf = WithBit(p.cf, 2)])
      [] c.op = "wqos" -> P([p EXCEPT !.cf = WithQoS(p.cf, 3, c.n)])
      [] c.op = "wretain" -> P([p EXCEPT !.cf = WithBit(p.cf, 5)])
      [] c.op = "clean" -> P([p EXCEPT !.cf = WithBit(p.cf, 1)])
      [] c.op = "user" -> P([p EXCEPT !.user = <<Flat(c.a)>>, !.cf = WithBit(p.cf, 7)])
      [] c.op = "pass" -> P([p EXCEPT !.pass = <<Flat(c.a)>>, !.cf = WithBit(p.cf, 6)])
      [] c.op = "keep" -> P([p EXCEPT !.keep = c.n])
      [] c.op = "retain" -> P([p EXCEPT !.fl = WithBit(p.fl, 0)])
      [] c.op = "dup" -> P([p EXCEPT !.fl = WithBit(p.fl, 3)])
      [] c.op = "qos" -> P([p EXCEPT !.fl = WithQoS(p.fl, 1, c.n), !.id = IF c.n = 0 THEN -1 ELSE p.id])
      [] c.op = "id" -> P([p EXCEPT !.id = c.n])
      [] c.op = "pay" -> P([p EXCEPT !.pay = c.a])
      [] c.op = "sub" -> P([p EXCEPT !.subs = Append(p.subs, <<Flat(c.a), c.n>>)])
      [] c.op = "unsub" -> P([p EXCEPT !.subs = Append(p.subs, <<Flat(c.a), 0>>)])
      [] c.op = "rc" -> P([p EXCEPT !.rcs = Append(p.rcs, c.n)])
      [] c.op = "reason" -> P([p EXCEPT !.rc = c.n])
      [] c.op = "sp" -> P([p EXCEPT !.af = 1])
      [] c.op = "build" -> st

Apply(st, c) == IF Allowed(st, c) THEN Effect(st, c) ELSE st

\* the packets that have bytes: the packet API leaves it to its user that a
\* QoS 1 or 2 publish has an identifier and that no list is empty
Complete(p) ==
    /\ p.t # 0
    /\ p.t = PUBLISH /\ (p.fl \div 2) % 4 # 0 => p.id # -1
    /\ p.t \in {SUBSCRIBE, UNSUBSCRIBE} => p.subs # <<>>
    /\ p.t \in {SUBACK, UNSUBACK} => p.rcs # <<>>

\* the rules that every sequence of calls has to keep
PropsLawful(ps, owner) ==
    /\ \A j \in 1..Len(ps) : owner \in PropOwners(ps[j][1])
    /\ \A j, l \in 1..Len(ps) : j < l => /\ ps[j][1] <= ps[l][1]
                                         /\ ps[j][1] = ps[l][1] => Repeatable(ps[j][1])
Lawful(p) ==
    /\ PropsLawful(p.ps, p.t)
    /\ p.will # <<>> => PropsLawful(p.will[1].ps, WILL)
    /\ p.t = CONNECT =>
          /\ ConnectFlagsOk(p.cf)
          /\ (Bit(p.cf, 2) = 1) = (p.will # <<>>)
          /\ (Bit(p.cf, 7) = 1) = (p.user # <<>>)
          /\ (Bit(p.cf, 6) = 1) = (p.pass # <<>>)
    /\ p.t = PUBLISH => FixedFlagsOk(3, p.fl) /\ ((p.fl \div 2) % 4 = 0 => p.id = -1)
    /\ Complete(p) => LET b == Encode(p)
                          d == Decode(b)
                      IN  d.s = "ok" /\ d.n = VLen(b) /\ Same(d.p, p)
=============================================================================

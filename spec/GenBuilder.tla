----------------------------- MODULE GenBuilder -----------------------------
(***************************************************************************)
(* Explores the builder state machine over a small alphabet of calls, with *)
(* the invariant that no sequence of calls makes a contradictory packet,   *)
(* and writes one test for every transition of the state graph: the calls  *)
(* that lead to its source by a shortest path, and its own.                *)
(***************************************************************************)
EXTENDS Builder, Json, IOUtils, SequencesExt

VARIABLES st, hist
vars == <<st, hist>>
Thorough == IOEnv.TIER = "thorough"

C(op) == [op |-> op, k |-> 0, n |-> 0, ty |-> "", a |-> VB(<<>>), b |-> VB(<<>>), p |-> NoPacket]
T(s) == VB(s)
Long == [pre |-> <<>>, n |-> 65536, c |-> 97]

Starts == {[C("connect") EXCEPT !.a = T(<<99>>)],
           [C("publish") EXCEPT !.a = T(<<116>>), !.b = T(<<1>>)]}
          \cup {[C("new") EXCEPT !.p = [NoPacket EXCEPT !.t = t, !.id = IF t \in 4..11 THEN 258 ELSE -1,
                                            !.fl = IF t \in {6, 8, 10} THEN 2 ELSE 0,
                                            !.rc = IF t \in {2, 4, 5, 6, 7, 14, 15} THEN 0 ELSE -1]]
                 : t \in (2..15) \ {3}}
BadStarts == {[C("connect") EXCEPT !.a = T(<<99, 1>>)], [C("connect") EXCEPT !.a = Long],
              [C("publish") EXCEPT !.a = T(<<116, 47, 35>>)], [C("publish") EXCEPT !.a = T(<<43>>)],
              [C("publish") EXCEPT !.a = T(<<0>>)], [C("publish") EXCEPT !.a = Long]}

Val(ty) == CASE ty \in {"byte", "bool"} -> T(<<1>>)
             [] ty = "u16" -> T(<<1, 2>>)
             [] ty \in {"u32", "var"} -> T(<<0, 0, 3, 4>>)
             [] ty \in {"str", "pair"} -> T(<<120, 195, 169>>)
             [] ty = "bin" -> T(<<0, 255>>)
P(op, k, ty, v) == [C(op) EXCEPT !.k = k, !.ty = ty, !.a = v]
ValTypes == {"byte", "bool", "u16", "u32", "var", "str", "pair", "bin"}
\* the empty packet meets every property with every type of value ...
AnyProp(op) == {P(op, k, ty, Val(ty)) : k \in PropIds, ty \in ValTypes}
\* ... after that a few properties of every sort
OwnProps(op, owner) == {P(op, k, PropType(k), Val(PropType(k))) : k \in {x \in PropIds : owner \in PropOwners(x)}}
SomeProps(op, owner) ==
    {P(op, 38, "str", T(<<97>>)), P(op, 38, "str", T(<<98>>)), P(op, 38, "str", T(<<127>>)), P(op, 38, "str", Long),
     P(op, 31, "str", T(<<>>)), P(op, 31, "str", T(<<97>>)),
     P(op, 17, "u32", T(<<0, 0, 0, 1>>)), P(op, 17, "u32", T(<<255, 0, 0, 1>>)),
     P(op, 11, "var", T(<<0, 0, 0, 127>>)), P(op, 11, "var", T(<<0, 0, 64, 0>>)), P(op, 11, "var", T(<<16, 0, 0, 0>>)),
     P(op, 9, "bin", T(<<1, 2, 3>>)), P(op, 9, "bin", Long), P(op, 1, "byte", T(<<0>>)), P(op, 3, "str", T(<<97>>))}

Specific(t) ==
    CASE t = CONNECT ->
            {C("clean"), [C("keep") EXCEPT !.n = 513],
             [C("user") EXCEPT !.a = T(<<117>>)], [C("user") EXCEPT !.a = T(<<10>>)], [C("user") EXCEPT !.a = Long],
             [C("pass") EXCEPT !.a = T(<<0, 1>>)], [C("pass") EXCEPT !.a = Long],
             [C("wnew") EXCEPT !.a = T(<<119>>), !.b = T(<<5>>)], [C("wnew") EXCEPT !.a = T(<<31>>)],
             [C("wnew") EXCEPT !.a = T(<<120>>), !.b = Long],
             C("wretain")} \cup {[C("wqos") EXCEPT !.n = q] : q \in 0..2}
      [] t = PUBLISH ->
            {C("retain"), C("dup"), [C("id") EXCEPT !.n = 7], [C("id") EXCEPT !.n = 65535],
             [C("pay") EXCEPT !.a = T(<<>>)], [C("pay") EXCEPT !.a = [pre |-> <<1>>, n |-> 200, c |-> 2]]}
            \cup {[C("qos") EXCEPT !.n = q] : q \in 0..2}
      [] t = SUBSCRIBE ->
            {[C("sub") EXCEPT !.a = T(f), !.n = o] :
                f \in {<<97>>, <<43, 47, 35>>, <<97, 35>>, <<1>>}, o \in {0, 3, 6, 41, 48, 63}}
      [] t = UNSUBSCRIBE -> {[C("unsub") EXCEPT !.a = T(f)] : f \in {<<97>>, <<47, 43>>, <<35, 97>>, <<127>>}}
                            \cup {[C("unsub") EXCEPT !.a = Long]}
      [] t = SUBACK -> {[C("rc") EXCEPT !.n = r] : r \in {0, 2, 131, 162}}
      [] t = UNSUBACK -> {[C("rc") EXCEPT !.n = r] : r \in {0, 17, 145}}
      [] t \in {PUBACK, PUBREC} -> {[C("reason") EXCEPT !.n = r] : r \in {0, 16, 153}}
      [] t \in {PUBREL, PUBCOMP} -> {[C("reason") EXCEPT !.n = r] : r \in {0, 146}}
      [] t = CONNACK -> {[C("reason") EXCEPT !.n = r] : r \in {0, 131, 159}} \cup {C("sp")}
      [] OTHER -> {}
WillCalls == {[C("wtopic") EXCEPT !.a = T(<<122, 47>>)], [C("wtopic") EXCEPT !.a = T(<<127>>)],
              [C("wpay") EXCEPT !.a = T(<<>>)], [C("wpay") EXCEPT !.a = Long], C("will")}

Calls(s, depth) ==
    IF s.p.t = 0 THEN Starts \cup BadStarts
    ELSE IF s.p.t \in {PINGREQ, PINGRESP} THEN {}
    ELSE Specific(s.p.t)
         \cup (IF depth = 1 THEN AnyProp("prop") ELSE SomeProps("prop", s.p.t))
         \cup (IF s.w = <<>> THEN {}
               ELSE WillCalls \cup (IF depth = 2 THEN AnyProp("wprop")
                                    ELSE IF Thorough THEN SomeProps("wprop", WILL)
                                    ELSE {P("wprop", 38, "str", T(<<97>>)), P("wprop", 24, "u32", T(<<0, 0, 0, 9>>)),
                                          P("wprop", 24, "u32", T(<<0, 0, 1, 0>>)), P("wprop", 17, "u32", T(<<0, 0, 1, 0>>))}))

Depth(t) == IF Thorough THEN (IF t = CONNECT THEN 5 ELSE 5) ELSE IF t \in {CONNECT} THEN 4 ELSE 3

Init == st = Start /\ hist = <<>>
Next == /\ hist = <<>> \/ Len(hist) < Depth(st.p.t)
        /\ \E c \in Calls(st, Len(hist)) :
              /\ st' = Apply(st, c)
              /\ hist' = Append(hist, c)
View == st
Emit == PrintT("@" \o ToJson(hist'))
NeverContradictory == st.p.t # 0 => Lawful(st.p)
\* a refused call changes nothing
RefusalIsNeutral == [][LET c == hist'[Len(hist')] IN ~Allowed(st, c) => st' = st]_vars
Spec == Init /\ [][Next]_vars
=============================================================================

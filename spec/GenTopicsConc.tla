--------------------------- MODULE GenTopicsConc ----------------------------
(***************************************************************************)
(* Writes scenarios of concurrent calls to the topics table: all small     *)
(* multisets of calls over a small universe, from several initial tables.  *)
(* The filters share levels, so that the calls meet in the tree: siblings, *)
(* parent and child, the same node, wildcards.                             *)
(***************************************************************************)
EXTENDS Topics, Json, IOUtils, SequencesExt

Thorough == IOEnv.TIER = "thorough"
Plain == <<0, 0>>
Sub(c, f, o) == <<"sub", c, f, o>>
Unsub(c, f) == <<"unsub", c, f, Plain>>
All(c) == <<"all", c, <<>>, Plain>>
Look(t) == <<"look", t>>
First == <<"a", "b">>

Filters == {First, <<"a", "c">>, <<"a", "#">>, <<"a">>}
           \cup (IF Thorough THEN {<<"+", "b">>, <<"a", "b", "c">>, <<"#">>} ELSE {})
Topics == {First, <<"a", "c">>, <<"a">>} \cup (IF Thorough THEN {<<"a", "b", "c">>, <<"x", "b">>} ELSE {})

Inits == { <<>>,
           <<Sub(1, First, <<1, 1>>)>>,
           <<Sub(1, First, <<1, 1>>), Sub(2, First, Plain)>>,
           <<Sub(1, <<"a", "c">>, Plain), Sub(1, <<"a", "#">>, <<2, 1>>)>> }
Calls == {Sub(1, f, <<2, 0>>) : f \in Filters} \cup {Sub(2, First, <<1, 0>>), Sub(2, <<"a", "c">>, Plain)}
         \cup {Unsub(1, f) : f \in Filters} \cup {All(1), All(2)}
         \cup {Look(t) : t \in Topics}
Writes == {c \in Calls : c[1] # "look"}
Ord == SetToSeq(Calls)
Idx == 1..Len(Ord)
W(x) == Ord[x] \in Writes
\* the order of the calls does not matter
Pairs == {<<x, y>> \in Idx \X Idx : x <= y /\ (W(x) \/ W(y))}
\* two that change something and a lookup
Triples == {<<x, y, z>> \in Idx \X Idx \X Idx : x <= y /\ W(x) /\ W(y) /\ Ord[z] = Look(First)}
Scenario(init, ix) == [init |-> init, ops |-> [k \in DOMAIN ix |-> Ord[ix[k]]], looks |-> SetToSeq(Topics)]
ASSUME ndJsonSerialize(IOEnv.OUT,
          SetToSeq({Scenario(i, p) : i \in Inits, p \in Pairs})
          \o SetToSeq({Scenario(i, p) : i \in (IF Thorough THEN Inits ELSE {<<Sub(1, First, <<1, 1>>)>>}), p \in Triples}))
VARIABLE x
Spec == x = 0 /\ [][UNCHANGED x]_x
=============================================================================

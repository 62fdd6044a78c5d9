----------------------------- MODULE GenTopics ------------------------------
(***************************************************************************)
(* Explores the table of subscriptions over small universes of filters and *)
(* writes one test for every transition: the calls that lead to its source *)
(* by a shortest path and its own, and the topics to look up afterwards.   *)
(* The matching test is one table in which client k holds filter k, for    *)
(* all filters of a bounded alphabet, with lookups of all topics.          *)
(***************************************************************************)
EXTENDS Topics, Json, IOUtils, SequencesExt

VARIABLES u, tab, hist
vars == <<u, tab, hist>>
Thorough == IOEnv.TIER = "thorough"

\* filters that overlap in different ways, and topics that tell them apart
Universes ==
    << [f |-> {<<"a">>, <<"a", "#">>, <<"+">>}, t |-> {<<"a">>, <<"b">>, <<"a", "b">>, <<"a", "">>}],
       [f |-> {<<"#">>, <<"+", "b">>, <<"a", "b">>}, t |-> {<<"a", "b">>, <<"c", "b">>, <<"a">>, <<"a", "b", "c">>, <<"$a", "b">>}],
       [f |-> {<<"a", "b">>, <<"a", "b", "c">>, <<"a">>}, t |-> {<<"a">>, <<"a", "b">>, <<"a", "b", "c">>, <<"a", "b", "c", "d">>}],
       [f |-> {<<"", "a">>, <<"a">>, <<"", "+">>}, t |-> {<<"", "a">>, <<"a">>, <<"", "">>, <<"", "", "a">>}],
       [f |-> {<<"+", "+">>, <<"+", "#">>, <<"a", "+">>}, t |-> {<<"a", "b">>, <<"a">>, <<"b", "b">>, <<"b", "b", "b">>}],
       [f |-> {<<"$s", "#">>, <<"$s", "+">>, <<"+", "x">>}, t |-> {<<"$s", "x">>, <<"$s">>, <<"s", "x">>, <<"$s", "x", "y">>}],
       [f |-> {<<"a", "+", "c">>, <<"a", "b", "#">>, <<"+", "b", "c">>}, t |-> {<<"a", "b", "c">>, <<"a", "b">>, <<"x", "b", "c">>, <<"a", "x", "c">>}],
       [f |-> {<<"a", "#">>, <<"a", "b", "#">>, <<"a", "b">>}, t |-> {<<"a">>, <<"a", "b">>, <<"a", "b", "c">>, <<"a", "c">>}],
       \* as many levels as there can be
       [f |-> {<<"a", "@40", "+">>, <<"a", "@40", "#">>}, t |-> {<<"a", "@40">>, <<"a">>, <<"a", "@40", "b">>, <<"a", "b">>}],
       [f |-> {<<"a", "@9000">>, <<"+", "#">>}, t |-> {<<"a", "@9000">>, <<"a", "@9000", "b">>, <<"a", "b">>}] >>
Clients == {1, 2}
Options == {<<0, 0>>, <<0, 1>>} \cup (IF Thorough THEN {<<2, 3>>} ELSE {})
Us == IF Thorough THEN 1..Len(Universes) ELSE 1..Len(Universes)

\* the second client only ever asks for the plain options, which is enough to see it being disturbed
Calls(k) == {<<"sub", c, f, o>> : c \in Clients, f \in Universes[k].f, o \in Options}
            \cup {<<"unsub", c, f, <<0, 0>>>> : c \in Clients, f \in Universes[k].f}
            \cup {<<"all", c, <<>>, <<0, 0>>>> : c \in Clients}
Allowed(call) == call[2] = 2 => call[4] = <<0, 0>>

Init == u \in Us /\ tab = EmptyTable /\ hist = <<>>
Next == \E call \in {x \in Calls(u) : Allowed(x)} :
          /\ tab' = Do(tab, call)
          /\ hist' = Append(hist, call)
          /\ u' = u
View == <<u, tab>>
Emit == PrintT("@" \o ToJson([calls |-> hist', looks |-> SetToSeq(Universes[u].t)]))
Spec == Init /\ [][Next]_vars

\* sanity of the definitions themselves
Disjoint == [][LET call == hist'[Len(hist')] IN
                 \A k \in (DOMAIN tab \cup DOMAIN tab') :
                    k[1] # call[2] => (k \in DOMAIN tab /\ k \in DOMAIN tab' /\ tab[k] = tab'[k])]_vars

\* the matching test
Names == {"", "a", "b", "$a"}
FLevels == Names \cup {"+"}
Upto(S, n) == UNION {[1..k -> S] : k \in 1..n}
AllTopics == Upto(Names, IF Thorough THEN 4 ELSE 3) \ {<<"">>}
AllFilters == (Upto(FLevels, 3) \ {<<"">>}) \cup {<<"#">>} \cup {Append(f, "#") : f \in Upto(FLevels, 2)}
ASSUME ndJsonSerialize(IOEnv.OUT,
          << [calls |-> LET s == SetToSeq(AllFilters) IN [k \in 1..Len(s) |-> <<"sub", k, s[k], <<0, 0>>>>],
              looks |-> SetToSeq(AllTopics)] >>)
=============================================================================

------------------------------- MODULE MCImpl -------------------------------
(* Configurations of BrokerImpl: what the clients do. *)
EXTENDS BrokerImpl
CONSTANT Kind
Pr == CASE Kind = 1 -> {<<<<"sub","x">>, <<"pub","x">>>>, <<<<"pub","x">>, <<"pub","x">>>>}
        [] Kind = 2 -> {<<<<"sub","x">>>>, <<<<"pub","x">>, <<"odd">>>>, <<<<"sub","x">>,<<"bad">>>>}
        [] Kind = 3 -> {<<<<"sub","x">>, <<"pub","x">>>>, <<<<"pub","x">>>>}
        [] Kind = 4 -> {<<<<"sub","x">>>>, <<<<"pub","x">>>>}
        [] Kind = 5 -> {<<<<"sub","x">>>>}
=============================================================================

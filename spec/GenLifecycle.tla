---------------------------- MODULE GenLifecycle ----------------------------
(* Explores what can happen to two servers and writes one script for every  *)
(* transition: a shortest path to its source, and its own call.             *)
EXTENDS Lifecycle, TLC, Json, IOUtils, SequencesExt
Thorough == IOEnv.TIER = "thorough"
Depth == IF Thorough THEN 7 ELSE 6
Clients == 3
VARIABLES S, hist
vars == <<S, hist>>

Calls == {<<"start", s, p, n>> : s \in Servers, p, n \in 0..3}
         \cup {<<"stop", s>> : s \in Servers} \cup {<<"hold", 2>>, <<"leave", 2>>}
         \cup {<<"open", a, id>> : a \in Addrs, id \in {"a", "b"}}
         \cup {<<o, c>> : o \in {"sub", "close"}, c \in 1..Clients}
\* addresses and servers are alike: the first server starts at the first ones
Useful(x) ==
    /\ Allowed(S, x)
    /\ x[1] = "start" => x[2] = 1 \/ S.srv[1] # <<>> \/ \E k \in 1..Len(hist) : hist[k][1] = "start"
    /\ x[1] = "open" => Len(S.conns) < Clients /\ (Len(S.conns) = 0 => x[3] = "a")
    /\ x[1] = "sub" => ~S.conns[x[2]].sub
Init == S = Empty /\ hist = <<>>
Next == \E x \in Calls : /\ Len(hist) < Depth /\ Useful(x)
                         /\ S' = Do(S, x) /\ hist' = Append(hist, x)
View == S
Lists(T) == [s \in Servers |-> SetToSeq(Listed(T, s))]
RECURSIVE Wants(_, _, _)
Wants(T, h, k) ==
    IF k > Len(h) THEN <<>>
    ELSE LET U == Do(T, h[k]) IN
         <<[call |-> h[k], free |-> SetToSeq(Free(U)), open |-> SetToSeq(Open(U)), lists |-> Lists(U)]>> \o Wants(U, h, k + 1)
\* only what ends in something that can be told apart
Emit == (Len(hist') >= 3 \/ hist'[Len(hist')][1] = "start") => PrintT("@" \o ToJson([ops |-> Wants(Empty, hist', 1)]))
Good == Sane(S)
Independent == [][LET x == hist'[Len(hist')] IN
                  /\ x[1] \in {"start", "stop"} => Apart(S, S', x[2])
                  /\ x[1] \in {"sub", "close"} => Apart(S, S', S.conns[x[2]].s)
                  /\ x[1] = "open" => Apart(S, S', S.own[x[2]])
                  /\ (x[1] = "start" /\ Result(S, x) = "no") => S' = S]_vars
Spec == Init /\ [][Next]_vars
=============================================================================

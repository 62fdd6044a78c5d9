----------------------------- MODULE Lifecycle -----------------------------
(***************************************************************************)
(* Servers in one process, the addresses they listen at, and their         *)
(* clients.                                                                *)
(*   S.own    address |-> who listens there: 0 nobody, a server, or Other  *)
(*   S.srv    server |-> <<its plain address, its encrypted address>>, 0   *)
(*            where there is none; <<>> if it does not run                 *)
(*   S.conns  a sequence of [s, id, open, sub]: the server, the            *)
(*            identifier, is it (still) open, has it subscribed?           *)
(* Calls are                                                               *)
(*   <<"start", s, p, n>>  starts a server, which succeeds or does nothing *)
(*   <<"stop", s>>         shuts it down                                   *)
(*   <<"hold", a>>, <<"leave", a>>  somebody else listens, or stops        *)
(*   <<"open", a, id>>     a client connects; it becomes the next one      *)
(*   <<"sub", c>>          subscribes to the one topic                     *)
(*   <<"close", c>>                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Addrs == 1..3
Servers == 1..2
Other == 9

Empty == [own |-> [a \in Addrs |-> 0], srv |-> [s \in Servers |-> <<>>], conns |-> <<>>]
Free(S) == {a \in Addrs : S.own[a] = 0}
CanStart(S, p, n) == /\ p # 0 => p \in Free(S)
                     /\ n # 0 => n \in Free(S)
                     /\ p # 0 => p # n
\* can this call be made at all?
Allowed(S, x) ==
    CASE x[1] = "start" -> S.srv[x[2]] = <<>>
      [] x[1] = "stop"  -> S.srv[x[2]] # <<>>
      [] x[1] = "hold"  -> S.own[x[2]] = 0
      [] x[1] = "leave" -> S.own[x[2]] = Other
      [] x[1] = "open"  -> S.own[x[2]] # Other
      [] x[1] \in {"sub", "close"} -> x[2] \in 1..Len(S.conns) /\ S.conns[x[2]].open
      [] OTHER -> FALSE
Result(S, x) ==
    CASE x[1] = "start" -> IF CanStart(S, x[3], x[4]) THEN "ok" ELSE "no"
      [] x[1] = "open"  -> IF S.own[x[2]] = 0 THEN "no" ELSE "ok"
      [] OTHER -> "ok"
\* which of the connections go
End(S, gone(_)) == [c \in 1..Len(S.conns) |-> IF S.conns[c].open /\ gone(S.conns[c]) THEN [S.conns[c] EXCEPT !.open = FALSE] ELSE S.conns[c]]
Do(S, x) ==
    CASE x[1] = "start" ->
           IF CanStart(S, x[3], x[4])
           THEN [S EXCEPT !.srv[x[2]] = <<x[3], x[4]>>,
                          !.own = [a \in Addrs |-> IF a \in {x[3], x[4]} THEN x[2] ELSE @[a]]]
           ELSE S
      [] x[1] = "stop" -> [S EXCEPT !.srv[x[2]] = <<>>, !.own = [a \in Addrs |-> IF @[a] = x[2] THEN 0 ELSE @[a]],
                                    !.conns = End(S, LAMBDA c : c.s = x[2])]
      [] x[1] = "hold"  -> [S EXCEPT !.own[x[2]] = Other]
      [] x[1] = "leave" -> [S EXCEPT !.own[x[2]] = 0]
      [] x[1] = "open" ->
           LET s == S.own[x[2]] IN
           IF s = 0 THEN [S EXCEPT !.conns = Append(@, [s |-> 0, id |-> x[3], open |-> FALSE, sub |-> FALSE])]
           ELSE [S EXCEPT !.conns = Append(End(S, LAMBDA c : c.s = s /\ c.id = x[3]),
                                           [s |-> s, id |-> x[3], open |-> TRUE, sub |-> FALSE])]
      [] x[1] = "sub"   -> [S EXCEPT !.conns[x[2]].sub = TRUE]
      [] x[1] = "close" -> [S EXCEPT !.conns[x[2]].open = FALSE]
\* what can be seen
Open(S) == {c \in 1..Len(S.conns) : S.conns[c].open}
Listed(S, s) == {S.conns[c].id : c \in {c \in Open(S) : S.conns[c].s = s}}
\* the messages that a connection receives if each open one sends one
Heard(S, c) == IF S.conns[c].open /\ S.conns[c].sub THEN {d \in Open(S) : S.conns[d].s = S.conns[c].s} ELSE {}

\* what must hold
Sane(S) ==
    /\ \A s \in Servers : S.srv[s] # <<>> => \A a \in {S.srv[s][1], S.srv[s][2]} \ {0} : S.own[a] = s
    /\ \A a \in Addrs : S.own[a] \in Servers => S.srv[S.own[a]] # <<>> /\ a \in {S.srv[S.own[a]][1], S.srv[S.own[a]][2]}
    /\ \A c \in Open(S) : S.srv[S.conns[c].s] # <<>>
    /\ \A c, d \in Open(S) : c # d => S.conns[c].s # S.conns[d].s \/ S.conns[c].id # S.conns[d].id
\* a call at one server changes nothing at the others
Apart(S, T, s) ==
    \A o \in Servers \ {s} : /\ S.srv[o] = T.srv[o] /\ Listed(S, o) = Listed(T, o)
                             /\ {a \in Addrs : S.own[a] = o} = {a \in Addrs : T.own[a] = o}
=============================================================================

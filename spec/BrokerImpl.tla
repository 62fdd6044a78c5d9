----------------------------- MODULE BrokerImpl -----------------------------
(***************************************************************************)
(* The tasks inside the broker, and what they share: one task per          *)
(* connection (first the handshake, then, once the manager has registered  *)
(* it, the worker), the manager, the dispatcher with its bounded queue,    *)
(* and the shutdown.  The table of clients is under one lock: the manager  *)
(* writes it together with the subscriptions of the identifier, the        *)
(* dispatcher reads it while it processes a SUBSCRIBE and while it hands   *)
(* out a message, so each of these is one step here; that a message comes  *)
(* from a client that is (still) there is looked up in a step of its own.  *)
(*                                                                         *)
(* What clients rely on (Broker) is stated with the help of two ghosts:    *)
(* made, the subscriptions granted to each connection, and handed, what    *)
(* the dispatcher handed out, in order.                                    *)
(*                                                                         *)
(* Flaws are changes of the algorithm; each breaks one of the properties   *)
(* (see the MC*.cfg written by tools/impl_check.py).                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Conns,     \* connections
          Programs,  \* what a client may do: sequences of <<"sub", t>>, <<"pub", t>>, <<"bad">>, <<"odd">>
          Ids,       \* client identifiers
          Leaves,    \* may clients leave?
          Stops,     \* may the server be shut down?
          Reads,     \* may there be clients that read nothing?
          Q,         \* the size of the queue of the dispatcher
          Room,      \* how many packets the network holds for a client that reads nothing
          Flaws

Man == 0 - 1
Disp == 0 - 2
Flaw(f) == f \in Flaws
Cut(q) == SubSeq(q, 2, Len(q))

VARIABLES id, prog,  \* connection |-> its identifier, its program
          pace,      \* connection |-> does it read?
          left,      \* connection |-> the client has closed it
          w,         \* connection |-> the state of its task:
                     \*   "new" "hand" (handshake) "wait" (to be registered) "born" "run" "full" (waits for the
                     \*   dispatcher) "stuck" (waits for the client to read) "done" (to be joined) "end"
          at,        \* connection |-> how many packets it has read
          regq,      \* connections to be registered
          clients,   \* identifier |-> connection, 0 if there is none
          subs,      \* <<identifier, topic>> that are subscribed
          dq,        \* packets that wait for the dispatcher: <<connection, index>>
          doing,     \* the message that the dispatcher is about to hand out: <<>> or <<connection, index>>
          outq,      \* connection |-> packets for its client that wait in the broker
          wire,      \* connection |-> packets that have been written to its client
          kill,      \* connections whose worker has been told to end
          mgr, dsp,  \* "run", "drain" (waits for the workers), "end"
          stop,      \* "no", "asked", "over"
          deaf,      \* tasks that have not begun to listen to the shutdown: connections, Man, Disp
          made, handed
vars == <<id, prog, pace, left, w, at, regq, clients, subs, dq, doing, outq, wire, kill, mgr, dsp, stop, deaf, made, handed>>
who == <<id, prog, pace>>
out == <<outq, wire>>
serving == <<mgr, dsp, stop>>
ghosts == <<made, handed>>

Item(c, k) == prog[c][k]
Holders == {c \in Conns : clients[id[c]] = c}
\* what the dispatcher takes for the client that sent a packet
Sender(c) == IF Flaw("sender by identifier") THEN clients[id[c]] # 0 ELSE clients[id[c]] = c

Init ==
    /\ id \in [Conns -> Ids] /\ prog \in [Conns -> Programs]
    /\ pace \in [Conns -> IF Reads THEN BOOLEAN ELSE {TRUE}]
    /\ left = [c \in Conns |-> FALSE] /\ w = [c \in Conns |-> "new"] /\ at = [c \in Conns |-> 0]
    /\ regq = <<>> /\ clients = [i \in Ids |-> 0] /\ subs = {} /\ dq = <<>> /\ doing = <<>>
    /\ outq = [c \in Conns |-> <<>>] /\ wire = [c \in Conns |-> <<>>] /\ kill = {}
    /\ mgr = "run" /\ dsp = "run" /\ stop = "no" /\ deaf = Conns \cup {Man, Disp}
    /\ made = [c \in Conns |-> {}] /\ handed = <<>>

\* --- the clients ---------------------------------------------------------
Open(c) == /\ w[c] = "new" /\ stop # "over"
           /\ w' = [w EXCEPT ![c] = "hand"]
           /\ UNCHANGED <<who, left, at, regq, clients, subs, dq, doing, out, kill, serving, deaf, ghosts>>
Leave(c) == /\ Leaves /\ ~left[c] /\ w[c] # "new"
            /\ left' = [left EXCEPT ![c] = TRUE]
            /\ UNCHANGED <<who, w, at, regq, clients, subs, dq, doing, out, kill, serving, deaf, ghosts>>

\* --- the task of a connection --------------------------------------------
\* the CONNACK is sent before the connection is registered
Handshake(c) ==
    /\ w[c] = "hand"
    /\ IF left[c] \/ mgr = "end" THEN w' = [w EXCEPT ![c] = "end"] /\ UNCHANGED <<regq, wire>>
       ELSE /\ w' = [w EXCEPT ![c] = "wait"] /\ regq' = Append(regq, c) /\ wire' = [wire EXCEPT ![c] = Append(@, <<"connack">>)]
    /\ UNCHANGED <<who, left, at, clients, subs, dq, doing, outq, kill, serving, deaf, ghosts>>
\* a task that is spawned runs some time later
Begin(c) == /\ w[c] = "born"
            /\ w' = [w EXCEPT ![c] = "run"] /\ deaf' = deaf \ {c}
            /\ UNCHANGED <<who, left, at, regq, clients, subs, dq, doing, out, kill, serving, ghosts>>
Listen(t) == /\ t \in deaf /\ (IF t \in {Man, Disp} THEN TRUE ELSE w[t] = "hand")
             /\ deaf' = deaf \ {t}
             /\ UNCHANGED <<who, left, w, at, regq, clients, subs, dq, doing, out, kill, serving, ghosts>>
End(c) == w' = [w EXCEPT ![c] = "done"]
Read(c) ==
    /\ w[c] = "run"
    /\ \/ /\ at[c] < Len(prog[c]) /\ Item(c, at[c] + 1)[1] # "bad"
          /\ at' = [at EXCEPT ![c] = @ + 1] /\ w' = [w EXCEPT ![c] = "full"]
       \/ /\ at[c] < Len(prog[c]) /\ Item(c, at[c] + 1)[1] = "bad"
          /\ End(c) /\ UNCHANGED at
       \* the end of the stream
       \/ at[c] = Len(prog[c]) /\ left[c] /\ End(c) /\ UNCHANGED at
    /\ UNCHANGED <<who, left, regq, clients, subs, dq, doing, out, kill, serving, deaf, ghosts>>
Enqueue(c) ==
    /\ w[c] = "full" /\ (Len(dq) < Q \/ dsp = "end")
    /\ IF dsp = "end" THEN End(c) /\ UNCHANGED dq ELSE dq' = Append(dq, <<c, at[c]>>) /\ w' = [w EXCEPT ![c] = "run"]
    /\ UNCHANGED <<who, left, at, regq, clients, subs, doing, out, kill, serving, deaf, ghosts>>
Write(c) ==
    /\ w[c] \in {"run", "stuck"} /\ outq[c] # <<>>
    /\ IF left[c] THEN End(c) /\ UNCHANGED out
       ELSE IF ~pace[c] /\ Len(wire[c]) >= Room THEN w[c] = "run" /\ w' = [w EXCEPT ![c] = "stuck"] /\ UNCHANGED out
       ELSE /\ wire' = [wire EXCEPT ![c] = Append(@, Head(outq[c]))] /\ outq' = [outq EXCEPT ![c] = Cut(@)]
            /\ w' = [w EXCEPT ![c] = IF Head(outq[c])[1] = "disconnect" THEN "done" ELSE "run"]
    /\ UNCHANGED <<who, left, at, regq, clients, subs, dq, doing, kill, serving, deaf, ghosts>>
Killed(c) == /\ c \in kill /\ w[c] \in {"run", "full", "stuck"}
             /\ End(c) /\ kill' = kill \ {c}
             /\ UNCHANGED <<who, left, at, regq, clients, subs, dq, doing, out, serving, deaf, ghosts>>

\* --- the manager ---------------------------------------------------------
Without(i) == {x \in subs : x[1] # i}
Register ==
    /\ mgr = "run" /\ regq # <<>>
    /\ LET c == Head(regq)
           old == clients[id[c]] IN
       /\ regq' = Cut(regq) /\ clients' = [clients EXCEPT ![id[c]] = c]
       /\ w' = [w EXCEPT ![c] = "born"]
       /\ deaf' = deaf \cup {c}
       /\ subs' = IF old = 0 \/ Flaw("old subscriptions stay") THEN subs ELSE Without(id[c])
       \* (a permit that is kept until the worker asks for it)
       /\ kill' = IF old = 0 \/ (Flaw("kill who listens") /\ w[old] = "born") \/ w[old] = "end" THEN kill ELSE kill \cup {old}
    /\ UNCHANGED <<who, left, at, dq, doing, out, serving, ghosts>>
Retire(c) ==
    /\ w[c] = "done" /\ mgr \in {"run", "drain"}
    /\ w' = [w EXCEPT ![c] = "end"]
    /\ IF mgr = "run" /\ (clients[id[c]] = c \/ Flaw("retire by identifier"))
       THEN /\ clients' = [clients EXCEPT ![id[c]] = 0]
            /\ subs' = IF Flaw("retired subscriptions stay") THEN subs ELSE Without(id[c])
       ELSE UNCHANGED <<clients, subs>>
    /\ kill' = kill \ {c}
    /\ UNCHANGED <<who, left, at, regq, dq, doing, out, serving, deaf, ghosts>>

\* --- the dispatcher ------------------------------------------------------
Send(q, c, p) == IF w[c] \in {"done", "end"} THEN q ELSE [q EXCEPT ![c] = Append(@, p)]
\* what must not depend on others: someone who has gone, or does not read
Blocked(cs) == Flaw("bounded outgoing queue") /\ \E c \in cs : Len(outq[c]) >= 1 /\ w[c] \notin {"done", "end"}
Dispatch ==
    /\ dsp = "run" /\ doing = <<>> /\ dq # <<>>
    /\ LET c == Head(dq)[1]
           p == Item(c, Head(dq)[2]) IN
       /\ CASE p[1] = "pub" -> /\ doing' = IF Sender(c) THEN Head(dq) ELSE <<>>
                               /\ UNCHANGED <<subs, made, outq>>
            [] p[1] = "sub" -> /\ doing' = <<>>
                               /\ IF Sender(c)
                                  THEN /\ subs' = subs \cup {<<id[c], p[2]>>} /\ made' = [made EXCEPT ![c] = @ \cup {p[2]}]
                                       /\ ~Blocked({clients[id[c]]})
                                       /\ outq' = Send(outq, clients[id[c]], <<"suback", p[2]>>)
                                  ELSE /\ UNCHANGED <<made, outq>>
                                       /\ subs' = IF Flaw("subscribe without sender") THEN subs \cup {<<id[c], p[2]>>} ELSE subs
            [] p[1] = "odd" -> /\ doing' = <<>>
                               /\ IF Sender(c) THEN ~Blocked({clients[id[c]]}) /\ outq' = Send(outq, clients[id[c]], <<"disconnect">>)
                                  ELSE UNCHANGED outq
                               /\ UNCHANGED <<subs, made>>
       /\ dq' = Cut(dq)
    /\ UNCHANGED <<who, left, w, at, regq, clients, wire, kill, serving, deaf, handed>>
Receivers(t) == {c \in Holders : <<id[c], t>> \in subs}
Hand ==
    /\ dsp = "run" /\ doing # <<>>
    /\ LET t == Item(doing[1], doing[2])[2]
           r == Receivers(t)
           m == <<"pub", doing>> IN
       /\ ~Blocked(r)
       \* (who comes after someone that has gone gets nothing)
       /\ \E gone \in {x \in SUBSET {c \in r : w[c] \in {"done", "end"}} : Flaw("stop at an error") \/ x = {}} :
          \E miss \in {x \in SUBSET r : IF gone = {} THEN x = {} ELSE TRUE} :
          outq' = [c \in Conns |-> IF c \in r \ miss /\ w[c] \notin {"done", "end"} THEN Append(outq[c], m) ELSE outq[c]]
       /\ handed' = Append(handed, <<doing, r>>)
    /\ doing' = <<>>
    /\ UNCHANGED <<who, left, w, at, regq, clients, subs, dq, wire, kill, serving, deaf, made>>

\* --- the shutdown --------------------------------------------------------
\* wakes who listens, again and again until the tasks have ended
Down(c) == c \notin deaf /\ w[c] \in {"hand", "run", "full", "stuck"}
Notify ==
    /\ Stops /\ (stop = "no" \/ (stop = "asked" /\ ~Flaw("notify once"))) /\ ~(mgr = "end" /\ dsp = "end")
    /\ w' = [c \in Conns |-> IF ~Down(c) THEN w[c] ELSE IF w[c] = "hand" THEN "end" ELSE "done"]
    /\ mgr' = IF Man \notin deaf /\ mgr = "run" THEN "drain" ELSE mgr
    /\ dsp' = IF Disp \notin deaf THEN "end" ELSE dsp
    /\ stop' = "asked"
    /\ UNCHANGED <<who, left, at, regq, clients, subs, dq, doing, out, kill, deaf, ghosts>>
\* the manager waits for its workers; what it has not registered ends with it
Drained ==
    /\ mgr = "drain" /\ \A c \in Conns : w[c] \in {"new", "hand", "wait", "end"}
    /\ mgr' = "end"
    /\ w' = [c \in Conns |-> IF w[c] = "wait" THEN "end" ELSE w[c]]
    /\ regq' = <<>>
    /\ UNCHANGED <<who, left, at, clients, subs, dq, doing, out, kill, dsp, stop, deaf, ghosts>>
Over == /\ stop = "asked" /\ mgr = "end" /\ dsp = "end"
        /\ stop' = "over"
        /\ UNCHANGED <<who, left, w, at, regq, clients, subs, dq, doing, out, kill, mgr, dsp, deaf, ghosts>>

Task(c) == Handshake(c) \/ Begin(c) \/ Read(c) \/ Enqueue(c) \/ Write(c) \/ Killed(c)
Manager == Register \/ \E c \in Conns : Retire(c)
Dispatcher == Dispatch \/ Hand
Next == \/ \E c \in Conns : Open(c) \/ Leave(c) \/ Task(c)
        \/ \E t \in Conns \cup {Man, Disp} : Listen(t)
        \/ Manager \/ Dispatcher \/ Notify \/ Drained \/ Over
Fair == /\ \A c \in Conns : WF_vars(Task(c)) /\ WF_vars(Killed(c)) /\ WF_vars(Listen(c)) /\ WF_vars(Begin(c))
        /\ WF_vars(Listen(Man)) /\ WF_vars(Listen(Disp)) /\ WF_vars(Register) /\ \A c \in Conns : WF_vars(Retire(c))
        /\ WF_vars(Dispatcher) /\ WF_vars(Drained) /\ WF_vars(Over)
        /\ WF_vars(stop = "asked" /\ Notify)
Spec == Init /\ [][Next]_vars /\ Fair

\* --- what must hold ------------------------------------------------------
TypeOk == /\ \A i \in Ids : clients[i] = 0 \/ id[clients[i]] = i
          /\ Len(dq) <= Q
\* B11, B12, B13: the subscriptions of an identifier are those granted to the connection that holds it
OwnSubs == \A i \in Ids : {x[2] : x \in {x \in subs : x[1] = i}} = IF clients[i] = 0 THEN {} ELSE made[clients[i]]
\* B12: a connection that lives on is the holder of its identifier, unless it is to be registered, or has been told to end
Registered == \A c \in Conns : w[c] \in {"born", "run", "full", "stuck"} => clients[id[c]] = c \/ c \in kill
\* B01, B03, B16: what a client has received is, in order, what has been handed out to it (a connection that ends may miss the rest)
Pubs(q) == SelectSeq(q, LAMBDA x : x[1] = "pub")
HandedTo(c) == LET q == SelectSeq(handed, LAMBDA x : c \in x[2]) IN [k \in 1..Len(q) |-> <<"pub", q[k][1]>>]
IsPrefix(a, b) == Len(a) <= Len(b) /\ \A k \in 1..Len(a) : a[k] = b[k]
Delivered == \A c \in Conns : LET got == Pubs(wire[c] \o outq[c]) IN
                              IF w[c] \in {"done", "end"} THEN IsPrefix(got, HandedTo(c)) ELSE got = HandedTo(c)
\* B01, B13: a message is handed to those who hold a grant for its topic
Right == \A k \in 1..Len(handed) : \A c \in handed[k][2] : Item(handed[k][1][1], handed[k][1][2])[2] \in made[c]
\* B03, B19: the messages of a connection are handed out in order, each once
InOrder == \A j, k \in 1..Len(handed) : j < k /\ handed[j][1][1] = handed[k][1][1] => handed[j][1][2] < handed[k][1][2]
\* B08: the grant comes before the messages, and is answered
Answered == \A c \in Conns : \A k \in 1..Len(wire[c]) : wire[c][k][1] = "pub" =>
               \E j \in 1..(k - 1) : wire[c][j] = <<"suback", Item(wire[c][k][2][1], wire[c][k][2][2])[2]>>
\* B10, B11, B12, B19: when nothing more happens, all has been done, and who has gone has left nothing behind
Quiet == ~ENABLED (\/ \E c \in Conns : Task(c)
                   \/ \E t \in Conns \cup {Man, Disp} : Listen(t)
                   \/ Manager \/ Dispatcher \/ Drained \/ Over)
Settled == Quiet /\ stop = "no" =>
    /\ dq = <<>> /\ doing = <<>> /\ regq = <<>> /\ kill = {}
    /\ \A c \in Conns :
         /\ w[c] \in {"new", "run", "stuck", "end"}
         /\ (w[c] \in {"run", "stuck"}) = (clients[id[c]] = c)
         /\ w[c] = "run" => outq[c] = <<>> /\ at[c] = Len(prog[c]) /\ ~left[c]
         /\ w[c] = "stuck" => ~pace[c] /\ ~left[c]
    \* every message of someone who is there has been handed out
    /\ \A c \in Conns : w[c] = "run" =>
         \A k \in 1..Len(prog[c]) : Item(c, k)[1] = "pub" => \E j \in 1..Len(handed) : handed[j][1] = <<c, k>>
\* B17: the shutdown comes to an end, and then there is no registered connection
Stopped == stop = "over" => \A c \in Conns : w[c] \in {"new", "hand", "end"}
Stopping == (stop = "asked") ~> (stop = "over")
=============================================================================

---------------------------- MODULE BrokerTrace -----------------------------
(***************************************************************************)
(* Validates runs of the real broker.  In a phase the items of the         *)
(* connections are processed in some order; the search for an order that   *)
(* explains everything that was received goes as far as possible without   *)
(* a choice (see Free) and branches only where it matters.                 *)
(*                                                                         *)
(* Packets of a connection that ends in the phase may remain unprocessed,  *)
(* and it may miss the last of its messages.  What is sent to a client     *)
(* that does not read is owed to it until it does.                         *)
(*                                                                         *)
(* Every property looks at its own aspects of a run (see PROP).            *)
(***************************************************************************)
EXTENDS Broker, Json, IOUtils

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Prop == IOEnv.PROP
VARIABLES s,      \* which run
          ph,     \* which phase, 0 before the first
          S,      \* the state of the specification
          pos,    \* connection |-> how many of its items have been processed
          took,   \* connection |-> <<n, K>>: the received packets up to n and those of K are accounted for
          gone,   \* connections that end in this phase
          owed    \* connection |-> what has been sent to it while it did not read
vars == <<s, ph, S, pos, took, gone, owed>>

ToSet(q) == {q[k] : k \in 1..Len(q)}
Opt(r, f) == IF Has(r, f) THEN ToSet(r[f]) ELSE {}

\* the actions of a connection as items, what it received, and who reads nothing
Items0(p) == TLCEval([c \in {p.do[k].c : k \in 1..Len(p.do)} |->
                        TLCEval(Items(p.do[CHOOSE k \in 1..Len(p.do) : p.do[k].c = c].as, 1))])
\* some properties are about no messages
Deliveries == Prop \notin {"B07", "B11"}
Heard(q) == IF Deliveries THEN q ELSE SelectSeq(q, LAMBDA g : g.t # "pub")
Got0(p) == TLCEval([c \in {p.recv[k][1] : k \in 1..Len(p.recv)} |->
                        TLCEval(Heard(p.recv[CHOOSE k \in 1..Len(p.recv) : p.recv[k][1] = c][2]))])
\* where in what a connection received the messages of a name are, and (under <<"", -1>>) everything else
Key(g) == IF g.t = "pub" THEN g.pay ELSE <<"", 0 - 1>>
Index(q) == TLCEval([x \in {Key(q[k]) : k \in 1..Len(q)} |-> TLCEval({k \in 1..Len(q) : Key(q[k]) = x})])
Work == TLCEval([i \in 1..Len(Trace) |->
          TLCEval([k \in 1..Len(Trace[i].phases) |->
             LET p == Trace[i].phases[k] IN
             [items |-> Items0(p), got |-> Got0(p), at |-> LET g == Got0(p) IN TLCEval([c \in DOMAIN g |-> Index(g[c])]), quiet |-> Opt(p, "quiet"), race |-> Opt(p, "race")]])])

Rec == Trace[s]
Cfg == Rec.cfg
Phase == Rec.phases[ph]
W == Work[s][ph]
Quiet == W.quiet

\* --- what is left to do and to account for -------------------------------
AllOf(c) == IF c \in DOMAIN W.items THEN W.items[c] ELSE <<>>
Busy == {c \in DOMAIN W.items : pos[c] < Len(W.items[c])}
Next1(c) == W.items[c][pos[c] + 1]
GotBy(c) == IF c \in DOMAIN W.got THEN W.got[c] ELSE <<>>
Took(c) == IF c \in DOMAIN took THEN took[c] ELSE <<0, {}>>
HowManyLeft(c) == LET t == Took(c) IN Len(GotBy(c)) - t[1] - Cardinality(t[2])
AllTaken(c) == HowManyLeft(c) = 0
First(c) == Took(c)[1] + 1
LeftAt(c, key) == IF c \notin DOMAIN W.at \/ key \notin DOMAIN W.at[c] THEN {}
                  ELSE LET t == Took(c) IN {k \in W.at[c][key] : k > t[1] /\ k \notin t[2]}
RECURSIVE Normal(_)
Normal(t) == IF t[1] + 1 \in t[2] THEN Normal(<<t[1] + 1, t[2] \ {t[1] + 1}>>) ELSE t

\* --- the aspects that a property is about --------------------------------
Contents == Prop \in {"B02", "B16", "N02"}
\* only these are about the order in which packets arrive
Ordered == Prop \in {"B03", "B16", "B19", "N02"}
AboutClosed == Prop \in {"B06", "B07", "B09", "B10", "B11", "B12", "B14", "B15", "B16", "B18", "N01", "N02"}
AboutList == Prop \in {"B06", "B07", "B10", "B11", "B12", "B18", "N01", "N02"}
AboutTable == Prop \in {"B06", "B08", "B09", "B11", "B12", "B13", "N01", "N02"}

\* --- is a received packet the one that was sent? -------------------------
UserProps(ps) == SelectSeq(ps, LAMBDA x : x[1] = 38)
Others(ps) == {ps[k] : k \in {k \in 1..Len(ps) : ps[k][1] # 38}}
SameProps(a, b) == Len(a) = Len(b) /\ UserProps(a) = UserProps(b) /\ Others(a) = Others(b)
Exact == Prop \in {"B08", "B16", "N02"}
Is(g, p) ==
    /\ g.t = p.t
    /\ CASE p.t = "pub" -> /\ g.pay = p.pay
                           /\ Run(g) = Run(p)
                           /\ Contents =>
                                 g.topic = p.topic /\ g.fl = 0 /\ g.pid = 0 /\ SameProps(g.props, p.props) /\ g.size = p.size
         [] p.t = "suback" -> g.pid = p.pid /\ (Exact => g.rcs = p.rcs)
         [] p.t = "disconnect" -> IF Prop = "B09" THEN g.rc = p.rc ELSE g.rc >= 128
         [] p.t = "connack" ->
              IF p.rc = 0
              THEN g.rc = 0 /\ (Prop = "B07" => g.sp = 0 /\ {g.props[k] : k \in 1..Len(g.props)} = p.props
                                               /\ Len(g.props) = Cardinality(p.props))
              ELSE IF Prop = "B07" THEN g.rc = p.rc /\ g.sp = 0 ELSE g.rc >= 128
\* a parting word is welcome where none is prescribed
Farewell(g) == g.t \in {"disconnect", "connack"} /\ g.rc >= 128
Exhausted(c) == AllTaken(c) \/ (HowManyLeft(c) = 1 /\ Farewell(GotBy(c)[First(c)]))

\* the received packet that this one is, 0 if there is none
AsGot(c, p) == IF AllTaken(c) THEN 0
               ELSE IF Is(GotBy(c)[First(c)], p) THEN First(c)
               ELSE IF Ordered THEN 0
               ELSE LET m == {k \in LeftAt(c, Key(p)) : Is(GotBy(c)[k], p)} IN
                    IF m = {} THEN 0 ELSE CHOOSE k \in m : \A j \in m : k <= j
MayMiss(c) == c \in gone /\ (IF Ordered THEN Exhausted(c) ELSE TRUE)
Arrives(c, p) == c \in Quiet \/ AsGot(c, p) > 0 \/ MayMiss(c)

\* who received a message of this name (in this phase, and not yet accounted for)
Named(c, pay) == LeftAt(c, pay) # {}
Takers(pay) == {c \in DOMAIN W.got : Named(c, pay)}

SentTo(out, c) == {o \in out : o[1] = c}
Consume(out) ==
    [c \in DOMAIN took |->
        IF SentTo(out, c) = {} \/ c \in Quiet THEN took[c]
        ELSE LET k == AsGot(c, (CHOOSE o \in out : o[1] = c)[2]) IN
             IF k = 0 THEN took[c] ELSE Normal(<<took[c][1], took[c][2] \cup {k}>>)]
\* from whom, and what
Owe(from, out) ==
    [c \in DOMAIN owed \cup {o[1] : o \in {o \in out : o[1] \in Quiet}} |->
        (IF c \in DOMAIN owed THEN owed[c] ELSE <<>>) \o
        (IF SentTo(out, c) = {} \/ c \notin Quiet THEN <<>> ELSE <<<<from, (CHOOSE o \in out : o[1] = c)[2]>>>>)]

Result(c) == LET r == Step(Cfg, S, c, Next1(c)) IN
             IF Deliveries THEN r ELSE [r EXCEPT !.out = {o \in @ : o[2].t # "pub"}]
IsPub(c) == Next1(c)[1] = "p" /\ Next1(c)[2].t = "pub"
\* everything that this step sends has arrived, next in line
Fits(c) == LET r == Result(c) IN
           /\ \A o \in r.out : Arrives(o[1], o[2])
           /\ IsPub(c) => Takers(Next1(c)[2].pay) \subseteq {o[1] : o \in r.out}
           \* who is ended by it has nothing more to receive
           /\ \A x \in DOMAIN S.conns : S.conns[x].st # "over" /\ r.S.conns[x].st = "over" =>
                 \/ x \in Quiet
                 \/ IF \E o \in r.out : o[1] = x /\ AsGot(x, o[2]) > 0 THEN HowManyLeft(x) = 1 ELSE Exhausted(x)

RestOf(c) == {k \in 1..Len(AllOf(c)) : k > pos[c]}
IsConn(x, id, c) == x[1] = "p" /\ x[2].t = "connect" /\ IdOf(x[2], c) = id
\* No order matters for this step: either it changes nothing for others, or it is a SUBSCRIBE and all that it will
\* match has been received
Free(c) ==
    LET it == Next1(c)
        over == c \in DOMAIN S.conns /\ S.conns[c].st = "over" IN
    \/ it[1] = "open" \/ over \/ it[1] = "close"
    \/ /\ it[1] = "p"
       /\ \/ it[2].t = "pub"
          \/ it[2].t \in {"raw", "blob"}
          \/ /\ it[2].t = "connect"
             \* (who is replaced does nothing any more, and nothing is sent to it)
             /\ \A h \in Holder(S, IdOf(it[2], c)) :
                   /\ h \notin Busy
                   /\ \A x \in Busy : \A k \in RestOf(x) :
                         LET m == W.items[x][k] IN
                         Deliveries /\ m[1] = "p" /\ m[2].t = "pub" =>
                            \A y \in DOMAIN S.subs : ~(y[1] = h /\ Match(y[2], m[2].topic))
             /\ \A x \in Busy \ {c} : \A k \in RestOf(x) : ~IsConn(W.items[x][k], IdOf(it[2], c), x)
          \/ /\ it[2].t = "sub"
             /\ \A x \in Busy : \A k \in RestOf(x) :
                   LET m == W.items[x][k] IN
                   m[1] = "p" /\ m[2].t = "pub" /\ (\E j \in 1..Len(it[2].fs) : Match(it[2].fs[j][1], m[2].topic))
                      => ~Deliveries \/ Named(c, m[2].pay)
\* one that can go without a choice, 0 if there is none
RECURSIVE EasyIn(_)
EasyIn(cs) == IF cs = {} THEN 0
              ELSE LET c == CHOOSE c \in cs : TRUE IN
                   IF Free(c) /\ Fits(c) THEN c ELSE EasyIn(cs \ {c})
Do1(c) == LET r == Result(c) IN
          /\ S' = r.S
          /\ took' = Consume(r.out)
          /\ owed' = Owe(c, r.out)
          /\ pos' = [pos EXCEPT ![c] = @ + 1]
          /\ UNCHANGED <<s, ph, gone>>

\* a connection that ends: the rest of its packets is not processed any more
Endings(c) == {k \in RestOf(c) : Ends(Cfg, W.items[c][k])}
Droppable == {c \in gone \cap Busy : S.conns[c].st # "over" /\ Endings(c) # {} /\ Exhausted(c)}
Cut(c) == /\ S' = End(S, {c}, IF \E k \in RestOf(c) : W.items[c][k][1] = "close" /\ W.items[c][k][2] # "half"
                              THEN "client" ELSE "broker")
          /\ pos' = [pos EXCEPT ![c] = Len(W.items[c])]
          /\ UNCHANGED <<s, ph, took, gone, owed>>

\* --- the end of a phase --------------------------------------------------
Ids == {S.conns[c].id : c \in Live(S)}
\* (what a client has closed itself may have been closed by the broker before)
ClosedOk == ToSet(Phase.closed) \ {c \in DOMAIN S.conns : S.conns[c].by = "client"}
            = {c \in DOMAIN S.conns : S.conns[c].st = "over" /\ S.conns[c].by = "broker"}
ListOk == ToSet(Phase.listed) = Ids /\ Len(Phase.listed) = Cardinality(Ids)
TableOk == \A k \in 1..Len(Phase.seen) :
              ToSet(Phase.seen[k][2]) = {S.conns[x[1]].id : x \in {x \in DOMAIN S.subs : Match(x[2], Phase.seen[k][1])}}
PhaseOk ==
    /\ Busy = {}
    /\ \A c \in DOMAIN W.got : IF c \in gone /\ S.conns[c].st = "over" THEN Exhausted(c) ELSE AllTaken(c)
    /\ Phase.stuck = <<>>
    /\ AboutClosed => ClosedOk
    /\ AboutList => ListOk
    /\ AboutTable => TableOk
\* which connections end in this phase, in whatever order: those with an item that ends them, and the holders of
\* identifiers that are taken over
GoneIn(T, w) ==
    LET its == w.items
        conns == UNION {{<<c, its[c][k][2]>> : k \in {k \in 1..Len(its[c]) : its[c][k][1] = "p" /\ its[c][k][2].t = "connect"}}
                        : c \in DOMAIN its}
    IN {c \in DOMAIN its : \E k \in 1..Len(its[c]) : Ends(Cfg, its[c][k])}
       \cup {c \in Live(T) : \E q \in conns : q[2].id = T.conns[c].id}
       \cup w.race
\* where what is owed has been received, among the first n; 0: nowhere
At(w, c, n, o) == LET key == Key(o[2])
                      m == IF c \notin DOMAIN w.at \/ key \notin DOMAIN w.at[c] THEN {}
                           ELSE {k \in w.at[c][key] : k <= n /\ Is(w.got[c][k], o[2])}
                  IN IF m = {} THEN 0 ELSE CHOOSE k \in m : \A j \in m : k <= j
\* each once, those of one sender in their order and none left out before one that came
InOrder(q, at) ==
    LET came == {k \in 1..Len(q) : at[k] > 0} IN
    /\ Cardinality({at[k] : k \in came}) = Cardinality(came)
    /\ Ordered => \A x \in {q[k][1] : k \in 1..Len(q)} :
                      LET own == SelectSeq([k \in 1..Len(q) |-> <<q[k][1], at[k]>>], LAMBDA y : y[1] = x) IN
                      \A k \in 1..(Len(own) - 1) : own[k + 1][2] > 0 => own[k][2] > 0 /\ own[k][2] < own[k + 1][2]
\* what has been owed is what arrives first
PaidIn(w, c) ==
    LET n == Len(owed[c]) IN
    \E at \in {[k \in 1..n |-> At(w, c, n, owed[c][k])]} : (\A k \in 1..n : at[k] > 0) /\ InOrder(owed[c], at)
\* (what has been sent in bulk may be cut off)
Less(g, n, o) == IF n > 0 /\ Has(g[n], "run") /\ Run(o[2]) > g[n].run /\ Key(o[2]) = Key(g[n])
                 THEN <<o[1], [o[2] EXCEPT !.run = g[n].run]>> ELSE o
\* who has been ended meanwhile gets some of it
PartlyPaid(w, c) ==
    LET g == IF c \in DOMAIN w.got THEN w.got[c] ELSE <<>>
        q == IF c \in DOMAIN owed THEN owed[c] ELSE <<>>
        n == IF g # <<>> /\ (g[Len(g)].t = "cut" \/ Farewell(g[Len(g)])) THEN Len(g) - 1 ELSE Len(g) IN
    \E at \in {[k \in 1..Len(q) |-> At(w, c, n, Less(g, n, q[k]))]} :
        Cardinality({k \in 1..Len(q) : at[k] > 0}) = n /\ InOrder(q, at)
Enter(n, T) ==
    LET w == Work[s][n]
        got(c) == IF c \in DOMAIN w.got THEN w.got[c] ELSE <<>>
        late == {c \in DOMAIN owed : c \notin w.quiet /\ T.conns[c].st = "live"}
        lost == {c \in DOMAIN T.conns : (c \in DOMAIN owed \/ (ph > 0 /\ c \in Quiet)) /\ c \notin w.quiet /\ T.conns[c].st = "over"} IN
    /\ \A c \in late : PaidIn(w, c)
    /\ \A c \in lost : PartlyPaid(w, c)
    /\ ph' = n /\ S' = T /\ s' = s
    /\ pos' = [c \in DOMAIN w.items |-> 0]
    /\ took' = [c \in DOMAIN w.got |-> <<IF c \in late THEN Len(owed[c]) ELSE IF c \in lost THEN Len(got(c)) ELSE 0, {}>>]
    /\ owed' = [c \in DOMAIN owed \ (late \cup lost) |-> owed[c]]
    /\ gone' = GoneIn(T, w)

None == [x \in {} |-> 0]
Init == s \in 1..Len(Trace) /\ ph = 0 /\ S = Start /\ pos = None /\ took = None /\ gone = {} /\ owed = None
AtEnd == ph = Len(Rec.phases)
Next ==
    IF Prop = "B17" THEN FALSE
    ELSE IF ph = 0 THEN ph < Len(Rec.phases) /\ Enter(1, S)
    ELSE LET e == EasyIn(Busy) IN
         IF e # 0 THEN Do1(e)
         ELSE \/ \E c \in Busy : Fits(c) /\ Do1(c)
              \/ \E c \in Droppable : Cut(c)
              \/ PhaseOk /\ ~AtEnd /\ Enter(ph + 1, S)
Spec == Init /\ [][Next]_vars

\* (only the end matters to B17)
Finished == Prop = "B17" \/ (AtEnd /\ (ph = 0 \/ PhaseOk))
\* the shutdown
EndOk == /\ Rec.end = "ok"
         /\ Prop = "B17" => Rec.open = <<>>
Note == LET done == Finished /\ EndOk
        IN /\ done => TLCSet(2, TLCGet(2) \cup {s})
           /\ TLCGet(s + 10) >= ph \/ TLCSet(s + 10, ph)
           /\ ph > 0 /\ Busy = {} => UniqueIds(S) /\ OwnedSubs(S)
ASSUME TLCSet(2, {}) /\ \A x \in 1..Len(Trace) : TLCSet(x + 10, 0)
Canary(x) == Has(Trace[x], "canary")
Broken == {x \in 1..Len(Trace) : (x \in TLCGet(2)) = Canary(x)}
Report == Broken = {} \/ (PrintT(<<"BROKEN", CHOOSE x \in Broken : \A y \in Broken : x <= y,
                                  TLCGet(10 + CHOOSE x \in Broken : \A y \in Broken : x <= y)>>) /\ FALSE)
=============================================================================

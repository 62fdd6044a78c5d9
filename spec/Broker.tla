------------------------------- MODULE Broker -------------------------------
(***************************************************************************)
(* The broker as its clients see it.                                       *)
(*                                                                         *)
(* State: the connections and the subscriptions they hold,                 *)
(*   S.conns  connection |-> [st, id, enc, max, by]                        *)
(*       st   "tcp"   connected, no CONNECT accepted yet                   *)
(*            "live"  a registered client                                  *)
(*            "over"  ended                                                *)
(*       by   who closed it, "client" or "broker" ("client" if both did)    *)
(*   S.subs   <<connection, filter>> |-> is it no-local?                   *)
(* One step processes one item of a connection: <<"open", enc, fault>>,    *)
(* <<"p", packet>> or <<"close", how>>.  It yields the new state and the   *)
(* packets that it sends, as pairs <<connection, packet>>.                 *)
(*                                                                         *)
(* Packets are records with a type t:                                      *)
(*   connect  id, props, and clean, user, pass, will where not as usual    *)
(*   pub      fl, topic, props, pay = <<name, length>>                     *)
(*   sub      pid, props, fs = <<filter, options>> ...                     *)
(*   raw      as = "bad" for malformed, "odd" for well-formed and          *)
(*            unsupported, "refused" for a CONNECT that asks for what is   *)
(*            not supported, "part" for the beginning of one; n bytes long *)
(*   blob     n bytes of a frame that is not a packet                      *)
(* run says that it stands for so many of them, with numbered names.        *)
(* nf names what happens to the packet on an encrypted connection.         *)
(***************************************************************************)
EXTENDS Topics

Has(p, f) == f \in DOMAIN p
NoConns == [x \in {} |-> [st |-> "over", id |-> "", enc |-> FALSE, max |-> 0, by |-> ""]]
NoSubs == [x \in {} |-> FALSE]
Start == [conns |-> NoConns, subs |-> NoSubs]

Live(S) == {c \in DOMAIN S.conns : S.conns[c].st = "live"}
Holder(S, id) == {c \in Live(S) : S.conns[c].id = id}
Put1(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

\* --- sizes ---------------------------------------------------------------
VarLen(n) == IF n < 128 THEN 1 ELSE IF n < 16384 THEN 2 ELSE IF n < 2097152 THEN 3 ELSE 4
RECURSIVE SumLen(_, _)
SumLen(levels, k) == IF k > Len(levels) THEN 0
                     ELSE (IF IsRun(levels[k]) THEN 2 * Runs[levels[k]] - 1 ELSE Len(levels[k])) + SumLen(levels, k + 1)
TopicLen(levels) == SumLen(levels, 1) + Len(levels) - 1
PropLen(x) == 1 + (CASE x[1] \in {1, 23, 25, 36, 37, 40, 41, 42} -> 1
                     [] x[1] \in {19, 33, 34, 35} -> 2
                     [] x[1] \in {2, 17, 24, 39} -> 4
                     [] x[1] = 11 -> VarLen(x[2])
                     [] OTHER -> 2 + Len(x[2]))
RECURSIVE PropsLen(_, _)
PropsLen(ps, k) == IF k > Len(ps) THEN 0 ELSE PropLen(ps[k]) + PropsLen(ps, k + 1)
WithProps(ps) == LET n == PropsLen(ps, 1) IN VarLen(n) + n
Framed(n) == 1 + VarLen(n) + n
QosOf(fl) == (fl \div 2) % 4
\* xb: bytes that the characters of a packet need beyond one each
Extra(p) == IF Has(p, "xb") THEN p.xb ELSE 0
PubSize(p) == Framed(Extra(p) + 2 + TopicLen(p.topic) + (IF QosOf(p.fl) > 0 THEN 2 ELSE 0) + WithProps(p.props) + p.pay[2])
RECURSIVE FilterBytes(_, _)
FilterBytes(fs, k) == IF k > Len(fs) THEN 0 ELSE 3 + TopicLen(fs[k][1]) + FilterBytes(fs, k + 1)
Text(p, f) == IF Has(p, f) THEN 2 + Len(p[f]) ELSE 0
ConnectSize(p) == Framed(10 + WithProps(p.props) + 2 + Len(p.id) + Text(p, "user") + Text(p, "pass")
                         + (IF Has(p, "will") THEN 19 ELSE 0))
Size(p) == CASE p.t = "pub" -> PubSize(p)
             [] p.t = "sub" -> Framed(2 + WithProps(p.props) + FilterBytes(p.fs, 1))
             [] p.t = "connect" -> ConnectSize(p)
             [] p.t = "raw" -> p.n
             [] p.t = "blob" -> Framed(p.n)
\* a message of Noise carries 65535 bytes, 16 of them to authenticate it
NoiseMost == 65519
Least(a, b) == IF a < b THEN a ELSE b

\* --- what is supported ---------------------------------------------------
PropKeys(p) == {p.props[k][1] : k \in 1..Len(p.props)}
PropOf(p, key, default) == IF key \in PropKeys(p)
                           THEN p.props[CHOOSE k \in 1..Len(p.props) : p.props[k][1] = key][2] ELSE default
\* levels of which a filter cannot be made; a topic has no wildcards at all
BadLevels == {"a+", "+a", "a#", "#a", "##", "++", "+#", "#+"}
BadFilter(f) == \E k \in 1..Len(f) : f[k] \in BadLevels \/ (f[k] = "#" /\ k < Len(f))
BadTopic(t) == \E k \in 1..Len(t) : t[k] \in BadLevels \cup {"#", "+"}
BadOptions(o) == o >= 64 \/ o % 4 = 3 \/ (o \div 16) % 4 = 3
IllFormed(p) == CASE p.t = "blob" -> TRUE
                  [] p.t = "raw" -> p.as = "bad"
                  [] p.t = "pub" -> BadTopic(p.topic) \/ QosOf(p.fl) = 3
                  [] p.t = "sub" -> p.fs = <<>> \/ \E k \in 1..Len(p.fs) : BadFilter(p.fs[k][1]) \/ BadOptions(p.fs[k][2])
                  [] OTHER -> FALSE
Malformed(cfg, p) == IllFormed(p) \/ Size(p) > cfg.max
Faulty(p) == Has(p, "nf") /\ p.nf # "replay"
Clean(p) == IF Has(p, "clean") THEN p.clean ELSE TRUE
ConnectOk(p) == Clean(p) /\ ~Has(p, "user") /\ ~Has(p, "pass") /\ ~Has(p, "will")
                /\ PropKeys(p) \cap {21, 22} = {}
PubOk(p) == p.fl = 0 /\ PropKeys(p) \cap {2, 11, 35} = {}
SubOk(p) == 11 \notin PropKeys(p)
\* options: 0-1 QoS, 2 no-local, 3 retain as published, 4-5 retain handling
Granted(o) == o % 4 = 0 /\ (o \div 16) % 4 = 2
NoLocalOpt(o) == (o \div 4) % 2 = 1

\* --- what is sent --------------------------------------------------------
Run(p) == IF Has(p, "run") THEN p.run ELSE 1
Copy(p) == [t |-> "pub", topic |-> p.topic, props |-> p.props, pay |-> p.pay, size |-> PubSize([p EXCEPT !.fl = 0]), run |-> Run(p)]
SubAckSize(p) == Framed(3 + Len(p.fs))
SubAckFor(p) == [t |-> "suback", pid |-> p.pid, rcs |-> [k \in 1..Len(p.fs) |-> IF Granted(p.fs[k][2]) THEN 0 ELSE 131]]
Refusal == [t |-> "disconnect", rc |-> 131]
ConnRefusal == [t |-> "connack", rc |-> 131]
\* what a CONNACK says: <<property, value>>
ConnAckProps(cfg, p, c) ==
    {<<17, PropOf(p, 17, "0")>>, <<33, PropOf(p, 33, 65535)>>, <<36, 0>>, <<34, 0>>, <<40, 0>>, <<41, 0>>, <<42, 0>>,
     <<19, cfg.keep>>} \cup (IF p.id = "" THEN {<<18, "?" \o ToString(c)>>} ELSE {})
ConnAckSize(p) == Framed(2 + 1 + 5 + 3 + 2 + 3 + 2 + 2 + 2 + 3 + (IF p.id = "" THEN 39 ELSE 0))
ConnAck(cfg, p, c) == [t |-> "connack", rc |-> 0, props |-> ConnAckProps(cfg, p, c)]

\* --- who gets a message --------------------------------------------------
Matching(S, topic) == {k \in DOMAIN S.subs : Match(k[2], topic)}
Limit(cfg, con) == Least(Least(cfg.max, con.max), IF con.enc THEN NoiseMost ELSE cfg.max)
\* m: the subscriptions that match
Wants(cfg, S, r, c, p, m, size) ==
    /\ r = c => \E k \in m : k[1] = r /\ ~S.subs[k]
    /\ ~(cfg.strict /\ S.conns[c].enc /\ ~S.conns[r].enc)
    /\ size <= Limit(cfg, S.conns[r])
Receivers(cfg, S, c, p) ==
    LET m == Matching(S, p.topic)
        size == PubSize(p)
    IN {r \in {k[1] : k \in m} : Wants(cfg, S, r, c, p, m, size)}

\* --- the steps -----------------------------------------------------------
End(S, cs, by) == [conns |-> [x \in DOMAIN S.conns |-> IF x \in cs THEN [S.conns[x] EXCEPT !.st = "over", !.by = by]
                                                       ELSE S.conns[x]],
                   subs |-> [k \in {k \in DOMAIN S.subs : k[1] \notin cs} |-> S.subs[k]]]
Res(S, out) == [S |-> S, out |-> out]
IdOf(p, c) == IF p.id = "" THEN "?" \o ToString(c) ELSE p.id

AcceptedBy(cfg, p) == IF 39 \in PropKeys(p) THEN Least(cfg.max, PropOf(p, 39, 0)) ELSE cfg.max
Register(cfg, S, c, p) ==
    LET id == IdOf(p, c)
        T == End(S, Holder(S, id), "broker") IN
    [T EXCEPT !.conns[c] = [@ EXCEPT !.st = "live", !.id = id,
                                     !.max = AcceptedBy(cfg, p)]]
RECURSIVE Grant(_, _, _, _)
Grant(subs, c, fs, k) ==
    IF k > Len(fs) THEN subs
    ELSE Grant(IF Granted(fs[k][2]) THEN Put1(subs, <<c, fs[k][1]>>, NoLocalOpt(fs[k][2])) ELSE subs, c, fs, k + 1)

OnTcp(cfg, S, c, p) ==
    IF ~(p.t = "connect" \/ (p.t = "raw" /\ p.as = "refused")) \/ Malformed(cfg, p) \/ Faulty(p)
    THEN Res(End(S, {c}, "broker"), {})
    ELSE IF p.t = "raw" \/ ~ConnectOk(p) THEN Res(End(S, {c}, "broker"), {<<c, ConnRefusal>>})
    ELSE IF ConnAckSize(p) > AcceptedBy(cfg, p) THEN Res(End(S, {c}, "broker"), {})
    ELSE Res(Register(cfg, S, c, p), {<<c, ConnAck(cfg, p, c)>>})
OnLive(cfg, S, c, p) ==
    IF Malformed(cfg, p) \/ Faulty(p) THEN Res(End(S, {c}, "broker"), {})
    ELSE IF p.t = "pub" /\ PubOk(p) THEN Res(S, {<<r, Copy(p)>> : r \in Receivers(cfg, S, c, p)})
    ELSE IF p.t = "sub" /\ SubOk(p) 
         THEN Res([S EXCEPT !.subs = Grant(@, c, p.fs, 1)],
                  IF SubAckSize(p) <= Limit(cfg, S.conns[c]) THEN {<<c, SubAckFor(p)>>} ELSE {})
    ELSE Res(End(S, {c}, "broker"), {<<c, Refusal>>})
NewConn(enc) == [st |-> "tcp", id |-> "", enc |-> enc, max |-> 0, by |-> ""]

Step(cfg, S, c, item) ==
    CASE item[1] = "open" ->
            LET T == [S EXCEPT !.conns = Put1(@, c, NewConn(item[2]))] IN
            Res(IF item[3] = "" THEN T ELSE End(T, {c}, "broker"), {})
      [] item[1] = "close" /\ item[2] # "half" -> Res(End(S, {c}, "client"), {})
      [] S.conns[c].st = "over" -> Res(S, {})
      \* not all of it is there yet
      [] item[1] = "p" /\ item[2].t = "raw" /\ item[2].as = "part" -> Res(S, {})
      [] item[1] = "close" -> Res(End(S, {c}, "broker"), {})
      [] OTHER ->
            LET r == IF S.conns[c].st = "tcp" THEN OnTcp(cfg, S, c, item[2]) ELSE OnLive(cfg, S, c, item[2]) IN
            \* the copy of a message that has been processed is not
            IF Has(item[2], "nf") /\ item[2].nf = "replay" THEN Res(End(r.S, {c}, "broker"), r.out) ELSE r

\* does this item, if its turn comes, end its connection?
Ends(cfg, item) == item[1] = "close" \/ (item[1] = "open" /\ item[3] # "")
                   \/ (item[1] = "p" /\ (Malformed(cfg, item[2]) \/ Has(item[2], "nf")))

\* the actions of a script as items
RECURSIVE Flood(_, _, _)
Flood(p, k, n) == IF k = n THEN <<>>
                  ELSE <<<<"p", [p EXCEPT !.pay[1] = @ \o "." \o ToString(k)]>>>> \o Flood(p, k + 1, n)
RECURSIVE Items(_, _)
Items(as, k) ==
    IF k > Len(as) THEN <<>>
    ELSE LET a == as[k] IN
         (CASE a.a = "open" -> <<<<"open", IF Has(a, "enc") THEN a.enc ELSE FALSE, IF Has(a, "hs") THEN a.hs ELSE "">>>>
            [] a.a = "send" -> [j \in 1..Len(a.ps) |-> <<"p", a.ps[j]>>]
            [] a.a = "flood" -> IF Has(a, "bulk") THEN <<<<"p", a.p @@ [run |-> a.n]>>>> ELSE Flood(a.p, 0, a.n)
            [] a.a = "close" -> <<<<"close", a.how>>>>
            [] OTHER -> <<>>) \o Items(as, k + 1)

\* --- what must always be so ----------------------------------------------
UniqueIds(S) == \A c, d \in Live(S) : S.conns[c].id = S.conns[d].id => c = d
OwnedSubs(S) == \A k \in DOMAIN S.subs : k[1] \in Live(S)
=============================================================================

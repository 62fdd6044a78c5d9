------------------------------- MODULE Topics -------------------------------
(***************************************************************************)
(* Topic matching and the table of subscriptions, as MQTT describes them   *)
(* and independent of any tree.                                            *)
(*                                                                         *)
(* A topic name or filter is the sequence of its levels.  The table maps   *)
(* <<client, filter>> to the options of the subscription, <<QoS, flags>>;  *)
(* flags: 1 no-local, 2 retain as published.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* a level that stands for that many, all of them the same, of one character; there are no others of this kind next
\* to it, nor runs of different lengths in one test
Runs == [x \in {"@40", "@3000", "@9000"} |-> CASE x = "@40" -> 40 [] x = "@3000" -> 3000 [] x = "@9000" -> 9000]
IsRun(l) == l \in DOMAIN Runs

IsSystem(topic) == Len(topic[1]) > 0 /\ SubSeq(topic[1], 1, 1) = "$"
Wild(filter) == filter[1] \in {"+", "#"}

RECURSIVE MatchFrom(_, _, _)
MatchFrom(f, t, k) ==
    IF k > Len(f) THEN k > Len(t)
    ELSE IF f[k] = "#" THEN k - 1 <= Len(t)
    ELSE /\ k <= Len(t)
         /\ IF f[k] = "+" /\ IsRun(t[k])
            THEN f[Len(f)] = "#" /\ \A j \in k..(Len(f) - 1) : f[j] = "+"
            ELSE /\ f[k] = "+" \/ f[k] = t[k]
                 /\ MatchFrom(f, t, k + 1)
\* 4.7
Match(f, t) == /\ ~(Wild(f) /\ IsSystem(t))
               /\ MatchFrom(f, t, 1)

Hits(tab, c, t) == {k \in DOMAIN tab : k[1] = c /\ Match(k[2], t)}
Audience(tab, t) == {k[1] : k \in {x \in DOMAIN tab : Match(x[2], t)}}

Max2(S) == CHOOSE x \in S : \A y \in S : y <= x
NoLocal(o) == o[2] % 2 = 1
AsPublished(o) == (o[2] \div 2) % 2 = 1
\* the options of several overlapping subscriptions of one client: is r a fair merge?
\* (nothing is said about retain-as-published unless they agree)
FairMerge(r, os) ==
    /\ r[1] = Max2({o[1] : o \in os})
    /\ NoLocal(r) = (\A o \in os : NoLocal(o))
    /\ (\A o \in os : AsPublished(o)) => AsPublished(r)
    /\ (\A o \in os : ~AsPublished(o)) => ~AsPublished(r)

\* a call is <<op, client, filter, options>>
Put(tab, k, o) == [x \in DOMAIN tab \cup {k} |-> IF x = k THEN o ELSE tab[x]]
Without(tab, S) == [x \in DOMAIN tab \ S |-> tab[x]]
Do(tab, call) ==
    CASE call[1] = "sub" -> Put(tab, <<call[2], call[3]>>, call[4])
      [] call[1] = "unsub" -> Without(tab, {<<call[2], call[3]>>})
      [] call[1] = "all" -> Without(tab, {k \in DOMAIN tab : k[1] = call[2]})
EmptyTable == [x \in {} |-> <<0, 0>>]
RECURSIVE DoAll(_, _, _)
DoAll(tab, calls, j) == IF j > Len(calls) THEN tab ELSE DoAll(Do(tab, calls[j]), calls, j + 1)

(***************************************************************************)
(* Concurrent calls.  A write to a subscription has the time of its call,  *)
(* the time of its return and a value, <<>> for none.  What can a reader   *)
(* see that is called at time a and returns at time b?  Whatever has been  *)
(* written, unless it was certainly overwritten before a, that is by a     *)
(* write that began after it had ended and that had ended before a.        *)
(* Of removals of one subscription that run at the same time the first to  *)
(* return may find that another one is at it, so that the subscription is  *)
(* only known to be gone when all of them have returned.                   *)
(***************************************************************************)
Touches(call, k) == call[2] = k[1] /\ (call[1] \in {"sub", "unsub"} => call[3] = k[2])
Written(call) == IF call[1] = "sub" THEN call[4] ELSE <<>>
Settled(writes, y) ==
    Max2({y.ret} \cup {z.ret : z \in {x \in writes : /\ y.val = <<>> /\ x.val = <<>>
                                                   /\ x.call < y.ret /\ y.call < x.ret}})
Seen(writes, a, b) ==
    {w.val : w \in {x \in writes : /\ x.call < b
                                   /\ ~\E y \in writes : x.ret < y.call /\ Settled(writes, y) < a}}
\* Is r, the set of answers about one client, explained by some choice of what is seen for each matching filter?
\* keys: these filters; vals[k]: what can be seen for k.
\* The answer o needs someone with its QoS, someone who is not no-local unless it is, and someone with its
\* retain-as-published; the others must not be in its way.
FairAnswer(r, keys, vals) ==
    \/ r = {} /\ \A k \in keys : <<>> \in vals[k]
    \/ \E o \in r :
         /\ r = {o}
         /\ LET Fits(v) == v = <<>> \/ (v[1] <= o[1] /\ (NoLocal(o) => NoLocal(v)))
                some == UNION {{<<k, v>> : v \in {x \in vals[k] : x # <<>> /\ Fits(x)}} : k \in keys}
                One(p, q) == p[1] = q[1] => p[2] = q[2]
            IN
            /\ \A k \in keys : \E v \in vals[k] : Fits(v)
            /\ \E p \in {x \in some : x[2][1] = o[1]} :
               \E q \in {x \in some : NoLocal(x[2]) = NoLocal(o) /\ One(p, x)} :
               \E s \in {x \in some : AsPublished(x[2]) = AsPublished(o) /\ One(p, x) /\ One(q, x)} : TRUE
\* one value for each of the keys, in all ways
RECURSIVE Picks(_, _)
Picks(keys, vals) ==
    IF keys = {} THEN {[x \in {} |-> <<>>]}
    ELSE LET k == CHOOSE x \in keys : TRUE IN
         UNION {{[x \in keys |-> IF x = k THEN v ELSE p[x]] : v \in vals[k]} : p \in Picks(keys \ {k}, vals)}
=============================================================================

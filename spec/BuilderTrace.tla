---------------------------- MODULE BuilderTrace ----------------------------
(***************************************************************************)
(* Validates recorded sequences of builder calls on the real packets       *)
(* against the builder state machine: every call succeeds or is refused as *)
(* the machine says, and afterwards the accessors, the frame length, the   *)
(* bytes and the packet parsed back from them all show its state.          *)
(***************************************************************************)
EXTENDS Builder, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLES s,     \* which sequence
          j,     \* how many of its calls are done
          st     \* the state of the machine
NoCall == [op |-> "", k |-> 0, n |-> 0, ty |-> "", a |-> VB(<<>>), b |-> VB(<<>>), p |-> NoPacket]
Call(x, y) == LET c == Trace[x].calls[y] @@ NoCall IN [c EXCEPT !.p = Full(c.p)]
PropCall(c) == c.op \in {"prop", "wprop"}

\* C08: the properties.  w: the will under construction, g: the packet as its accessors show it
PropsShown(x, o) ==
    /\ o.ge /\ o.wge
    /\ LET g == Full(o.g) IN
       /\ SameProps(g.ps, x.p.ps)
       /\ (g.will # <<>> /\ x.p.will # <<>>) => SameProps(g.will[1].ps, x.p.will[1].ps)
    /\ (o.w # <<>> /\ x.w # <<>>) => SameProps(o.w[1].ps, x.w[1].ps)
    /\ o.fl = -1 \/ o.fl = VLen(o.b)
    /\ Complete(x.p) => LET d == Decode(o.b) IN
         d.s = "ok" => /\ SameProps(d.p.ps, x.p.ps)
                       /\ (d.p.will # <<>> /\ x.p.will # <<>>) => SameProps(d.p.will[1].ps, x.p.will[1].ps)
\* C09: everything else
AllShown(x, o) ==
    /\ Same(Full(o.g), x.p) /\ SameWill(o.w, x.w)
    /\ Complete(x.p) =>
          /\ LET d == Decode(o.b) IN d.s = "ok" /\ d.n = VLen(o.b) /\ Same(d.p, x.p)
          /\ o.o.s = "ok" /\ o.o.n = VLen(o.b) /\ Same(Full(o.o.p), x.p)

Fine(c, o, before) ==
    LET after == Apply(before, c) IN
    /\ o.s = "ok"
    /\ (PropCall(c) = (Prop = "C08")) => o.ok = Allowed(before, c)
    /\ o.full => IF Prop = "C08" THEN PropsShown(after, o) ELSE AllShown(after, o)

Init == s \in 1..Len(Trace) /\ j = 0 /\ st = Start
Next == /\ j < Len(Trace[s].calls)
        /\ j' = j + 1
        /\ st' = Apply(st, Call(s, j'))
        /\ s' = s
\* a falsified sequence has its lie in its last observation
Canary == "canary" \in DOMAIN Trace[s]
Lies(k) == Canary /\ k = Len(Trace[s].calls)
Conforms == [][ Fine(Call(s, j'), Trace[s].obs[j'], st) # Lies(j')
                \/ (PrintT(<<"BROKEN", s, j'>>) /\ FALSE)]_<<s, j, st>>
Spec == Init /\ [][Next]_<<s, j, st>>
View == <<s, j>>
=============================================================================

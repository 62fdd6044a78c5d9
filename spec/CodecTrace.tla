----------------------------- MODULE CodecTrace -----------------------------
(***************************************************************************)
(* Validates recorded runs of the real parser and serialiser against the   *)
(* wire specification.  Each record of the trace is one step; the clauses  *)
(* of a property that it breaks are collected in Broken(i).                *)
(*   dec    some bytes were parsed, in one piece and in many chunkings     *)
(*   enc    a packet was built through the packet API, read back through   *)
(*          its accessors, serialised, and its bytes parsed                *)
(*   topic  a text was offered as topic and as filter to every entry point *)
(* One worker walks through the records; the driver splits long traces.    *)
(***************************************************************************)
EXTENDS MqttWire, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLE i

-----------------------------------------------------------------------------
(* the clauses: TRUE if the record is as the property wants it *)
DecC01(r) == r.o.s = "ok" =>
    LET d == Decode(r.o.re) IN
    d.s = "ok" /\ d.n = VLen(r.o.re) /\ Same(d.p, Full(r.o.p)) /\ VLen(r.o.re) = r.o.n
DecC02(r) == r.o.s = "ok" =>
    LET h == Header(r.b) IN
    h.s = "ok" /\ r.o.n = h.p + h.v - 1 /\ r.o.fl = r.o.n /\ VLen(r.o.re) = r.o.fl
DecC03(r) == LET h == Header(r.b) IN
    /\ r.vp => r.o.s = "more"
    /\ IsWhole(r.b, h) \/ (h.s = "bad" /\ VLen(r.b) >= 6) => r.o.s # "more"
    /\ ~IsWhole(r.b, h) => r.o.s # "ok"
DecC04(r) == /\ r.o.s # "panic" /\ \A j \in 1..Len(r.fr) : r.fr[j].s # "panic"
             /\ r.al <= 128 * VLen(r.b) + 65536
DecC05(r) == IsWhole(r.b, Header(r.b)) =>
    LET d == Decode(r.b) IN
    IF d.s = "bad" THEN r.o.s # "ok"
    ELSE IF r.o.s = "ok" THEN Same(d.p, Full(r.o.p))
    ELSE ~Strict(d.p)
DecC07(r) == r.fr = <<>>
DecC08(r) == r.o.s = "ok" => r.o.ge

EncC01(r) == /\ r.s = "ok" /\ Same(Full(r.p), Full(r.g))
             /\ r.o.s = "ok" /\ Same(Full(r.p), Full(r.o.p)) /\ r.o.ge
EncC02(r) == r.s = "ok" =>
    LET h == Header(r.b) IN
    /\ h.s = "ok" /\ h.p + h.v - 1 = VLen(r.b) /\ r.fl = VLen(r.b) /\ r.sv
    /\ r.o.s = "ok" => r.o.n = r.fl /\ r.o.fl = r.fl
EncC04(r) == r.s = "panic" \/ r.o.s # "panic"
EncC06(r) == r.s = "ok" =>
    LET d == Decode(r.b) IN d.s = "ok" /\ d.n = VLen(r.b) /\ Same(d.p, Full(r.p))
EncC08(r) == r.s = "ok" => r.ge

TopicC10(r) ==
    LET s == Slice(r.b, 1, VLen(r.b) + 1)
        f == FilterOk(s)
        t == TopicOk(s)
        yn(x) == IF x THEN "y" ELSE "n"
    IN  /\ r.bp = yn(t) /\ r.pp = yn(t)
        /\ r.bs = yn(f) /\ r.ps = yn(f)
        /\ r.bu = yn(f) /\ r.pu = yn(f)
        /\ r.mt = yn(f)
        /\ f => r.mw = yn(HasWildcard(s))

Holds(r) ==
    CASE r.k = "dec" -> (CASE Prop = "C01" -> DecC01(r) [] Prop = "C02" -> DecC02(r)
                           [] Prop = "C03" -> DecC03(r) [] Prop = "C04" -> DecC04(r)
                           [] Prop = "C05" -> DecC05(r) [] Prop = "C07" -> DecC07(r)
                           [] Prop = "C08" -> DecC08(r) [] OTHER -> TRUE)
      [] r.k = "enc" -> (CASE Prop = "C01" -> EncC01(r) [] Prop = "C02" -> EncC02(r)
                           [] Prop = "C04" -> EncC04(r)
                           [] Prop = "C06" -> EncC06(r) [] Prop = "C08" -> EncC08(r)
                           [] OTHER -> TRUE)
      [] r.k = "topic" -> (Prop = "C10" => TopicC10(r))

\* records that were falsified on purpose have to be rejected
Canary(r) == "canary" \in DOMAIN r

\* which records the property says something about, counted for the evidence
Bites(r) ==
    CASE r.k = "dec" -> (CASE Prop \in {"C01", "C02", "C08"} -> r.o.s = "ok"
                           [] Prop = "C03" -> r.vp \/ IsWhole(r.b, Header(r.b))
                           [] Prop = "C05" -> IsWhole(r.b, Header(r.b))
                           [] Prop \in {"C04", "C07"} -> VLen(r.b) > 1
                           [] OTHER -> FALSE)
      [] r.k = "enc" -> Prop \in {"C01", "C02", "C04", "C06", "C08"}
      [] r.k = "topic" -> Prop = "C10"

Init == i = 1
Next == i < Len(Trace) /\ i' = i + 1
Conforms ==
    LET r == Trace[i] IN
    /\ Holds(r) # Canary(r) \/ (PrintT(<<"BROKEN", i>>) /\ FALSE)
    /\ Bites(r) /\ ~Canary(r) => TLCSet(1, TLCGet(1) + 1)
ASSUME TLCSet(1, 0)
Counted == PrintT(<<"BITES", TLCGet(1)>>)
=============================================================================

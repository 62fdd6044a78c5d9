----------------------------- MODULE Deadlines ------------------------------
(***************************************************************************)
(* How long a connection may take to become a client.                      *)
(*   st     "hs"    encrypted, the handshake is not complete               *)
(*          "tcp"   no CONNECT yet                                         *)
(*          "live"  a registered client                                    *)
(*          "over"  closed by the broker                                   *)
(*   since  when this stage began                                          *)
(* A connection in "hs" is closed 3 * keep after it began, one in "tcp"    *)
(* keep after it began, a live one never.  Parts of a unit (a message of   *)
(* the handshake, the CONNECT) change nothing.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences
Never == 1000000000
Most(st, keep) == CASE st = "hs" -> 3 * keep [] st = "tcp" -> keep [] OTHER -> Never
First(enc) == IF enc THEN "hs" ELSE "tcp"
\* the units that a connection has to send
Units(enc) == IF enc THEN <<"m1", "m3", "c">> ELSE <<"c">>
\* the stage after this unit
After(st, unit) == CASE unit = "m1" -> "hs" [] unit = "m3" -> "tcp" [] unit = "c" -> "live"
\* (the first message does not begin a new stage)
Restarts(unit) == unit # "m1"
=============================================================================

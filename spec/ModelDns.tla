------------------------------ MODULE ModelDns ------------------------------
(* The name machine over every small buffer: it stops, stays inside the       *)
(* buffer, never exceeds the bound of a fixed-size target and agrees with the  *)
(* functional definition used for judging.                                     *)
EXTENDS Dns
CONSTANTS Vals, N, Max
VARIABLES b, i, start, out, olen, st, hops
Strings == UNION {[1..k -> Vals] : k \in 1..N}
Init == b \in Strings /\ i \in 0..(Len(b)-1) /\ start = i /\ out = <<>> /\ olen = 0 /\ st = "run" /\ hops = 0
Put(o, x) == IF Len(o) < Max - 1 THEN SubSeq(o \o x, 1, IF Len(o \o x) < Max - 1 THEN Len(o \o x) ELSE Max - 1) ELSE o
Next == /\ st = "run"
        /\ UNCHANGED b
        /\ IF i >= Len(b) THEN st' = "bad" /\ UNCHANGED <<i, start, out, olen, hops>>
           ELSE LET l == At(b, i) IN
             IF l = 0 THEN st' = "ok" /\ UNCHANGED <<i, start, out, olen, hops>>
             ELSE IF l < 64 THEN
               IF i + 1 + l > Len(b) THEN st' = "bad" /\ UNCHANGED <<i, start, out, olen, hops>>
               ELSE LET x == (IF olen = 0 THEN <<>> ELSE <<DOT>>) \o Piece(b, i + 1, l)
                    IN out' = Put(out, x) /\ olen' = olen + Len(x) /\ i' = i + 1 + l /\ UNCHANGED <<start, st, hops>>
             ELSE IF l >= 192 /\ i + 1 < Len(b) /\ (l - 192) * 256 + At(b, i + 1) < start
               THEN LET p == (l - 192) * 256 + At(b, i + 1)
                    IN i' = p /\ start' = p /\ hops' = hops + 1 /\ UNCHANGED <<out, olen, st>>
             ELSE st' = "bad" /\ UNCHANGED <<i, start, out, olen, hops>>
Bounded == Len(out) < Max /\ hops <= Len(b)
Agree == st # "run" /\ hops = 0 =>
           LET r == Name(b, start) IN (st = "ok") = r.ok /\ (r.ok /\ Len(r.name) < Max => out = r.name)
Backwards == start <= i
=============================================================================

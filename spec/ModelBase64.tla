----------------------------- MODULE ModelBase64 ----------------------------
EXTENDS Base64, TLC
CONSTANTS Chars, MaxLen, Bytes, MaxBytes
VARIABLES t, m, phase
Strings(S, n) == UNION {[1..k -> S] : k \in 0..n}
Init == \/ /\ phase = "dec" /\ t \in Strings(Chars, MaxLen) /\ m = DecInit
        \/ /\ phase = "enc" /\ t \in Strings(Bytes, MaxBytes) /\ m = DecInit
Next == /\ phase = "dec" /\ m.st = "run" /\ m' = DecStep(m, t) /\ UNCHANGED <<t, phase>>
MachineAgrees == phase = "dec" /\ m.st # "run" =>
                   /\ (m.st = "ok") = Valid(t)
                   /\ m.st = "ok" => m.out = Dec(t)
Canon == phase = "dec" /\ m.st = "ok" => ((Enc(Dec(t)) = t) = Canonical(t))
RoundTrip == phase = "enc" => /\ Valid(Enc(t)) /\ Canonical(Enc(t)) /\ Dec(Enc(t)) = t
=============================================================================

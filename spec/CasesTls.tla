------------------------------ MODULE CasesTls ------------------------------
(* Acceptor of recorded traces of TLS handshakes.                          *)
EXTENDS Tls, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES idx, pos, S
Init == idx \in 1..Len(Cases) /\ pos = 1 /\ S = TInit
Next == /\ pos >= 1 /\ pos <= Len(Cases[idx].tr)
        /\ LET r == TStep(S, Cases[idx].tr[pos]) IN
           IF r.ok = "" THEN S' = r.s /\ pos' = pos + 1
           ELSE PrintT(<<"REJECT", idx, r.ok, pos>>) /\ S' = S /\ pos' = 0
        /\ idx' = idx
View == <<idx, pos>>
=============================================================================

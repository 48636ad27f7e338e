------------------------------ MODULE CasesZip ------------------------------
(* Acceptor of recorded traces (bytes are strings here).                          *)
EXTENDS Zip, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
RStr == <<"<r xmlns='urn:xmpp:sm:3'/>", "<r xmlns=\"urn:xmpp:sm:3\"/>">>
VARIABLES idx, pos, S
Init == idx \in 1..Len(Cases) /\ pos = 1 /\ S = ZInit
Next == /\ pos >= 1 /\ pos <= Len(Cases[idx].tr)
        /\ LET r == ZStep(S, Cases[idx].tr[pos]) IN
           IF r.ok = "" THEN S' = r.s /\ pos' = pos + 1
           ELSE PrintT(<<"REJECT", idx, r.ok, pos>>) /\ S' = S /\ pos' = 0
        /\ idx' = idx
View == <<idx, pos>>
=============================================================================

---------------------------- MODULE CasesSendQ ----------------------------
(* Acceptor: every recorded trace is a behaviour of SendQ.tla.  One state per  *)
(* event; a trace that is not accepted prints REJECT and stops at position 0.     *)
EXTENDS SendQ, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Rq(c) == <<60, 114, 32, 120, 109, 108, 110, 115, 61, c, 117, 114, 110, 58, 120, 109, 112, 112, 58, 115, 109, 58, 51, c, 47, 62>>
RBytes == <<Rq(39), Rq(34)>>
VARIABLES idx, pos, S
Init == idx \in 1..Len(Cases) /\ pos = 1 /\ S = Init0
Next == /\ pos >= 1 /\ pos <= Len(Cases[idx].tr)
        /\ LET r == Step(S, Cases[idx].tr[pos]) IN
           IF r.ok = "" THEN S' = r.s /\ pos' = pos + 1
           ELSE PrintT(<<"REJECT", idx, r.ok, pos>>) /\ S' = S /\ pos' = 0
        /\ idx' = idx
View == <<idx, pos>>
=============================================================================

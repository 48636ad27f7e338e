---------------------------- MODULE CasesHandlers ----------------------------
(* Acceptor: every recorded trace is a behaviour of Handlers.tla.  One state per  *)
(* event; a trace that is not accepted prints REJECT and stops at position 0.     *)
EXTENDS Handlers, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES idx, pos, S
Init == idx \in 1..Len(Cases) /\ pos = 1 /\ S = Init0(0..1)
Next == /\ pos >= 1 /\ pos <= Len(Cases[idx].tr)
        /\ LET r == Step(S, Cases[idx].tr[pos]) IN
           IF r.ok = "" THEN S' = r.s /\ pos' = pos + 1
           ELSE PrintT(<<"REJECT", idx, r.ok, pos>>) /\ S' = S /\ pos' = 0
        /\ idx' = idx
View == <<idx, pos>>
=============================================================================

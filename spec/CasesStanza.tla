---------------------------- MODULE CasesStanza ----------------------------
EXTENDS Stanza, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Why(c) == RunOps(SInit, c.ops, 1)
VARIABLES idx
Init == idx \in 1..8
Next == /\ idx <= Len(Cases)
        /\ LET w == Why(Cases[idx]) IN IF w.why = "ok" THEN TRUE ELSE PrintT(<<"REJECT", idx, w.why, w.at>>)
        /\ idx' = idx + 8
=============================================================================

------------------------------ MODULE CasesDns ------------------------------
EXTENDS Dns, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
(* c: msg, found (0/1), rr: sequence of [p, w, port, t, len] *)
Strip(l) == [i \in 1..Len(l) |-> [p |-> l[i].p, w |-> l[i].w, port |-> l[i].port, t |-> l[i].t]]
Why(c) ==
  LET l == Strip(c.rr)
      d == Decode(c.msg)
  IN IF (c.found = 1) # (Len(l) > 0) THEN "outcome does not agree with the list"
     ELSE IF \E i \in 1..Len(l) : c.rr[i].len > 255 \/ c.rr[i].len # Len(l[i].t) THEN "target not terminated"
     ELSE IF ~Sorted(l) THEN "not ordered by priority and weight"
     ELSE IF WellFormed(c.msg) /\ ~SameBag(l, d.rr) THEN "records differ from the answers"
     ELSE IF ~IsResponse(c.msg) /\ Len(l) > 0 THEN "records from something that is no response"
     ELSE "ok"
VARIABLES idx
Init == idx \in 1..8
Next == /\ idx <= Len(Cases)
        /\ LET w == Why(Cases[idx]) IN IF w = "ok" THEN TRUE ELSE PrintT(<<"REJECT", idx, w>>)
        /\ IF WellFormed(Cases[idx].msg) THEN PrintT(<<"WF", idx>>) ELSE TRUE
        /\ idx' = idx + 8
=============================================================================

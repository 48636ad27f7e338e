------------------------------ MODULE CasesJid ------------------------------
EXTENDS Jid, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
(* optional strings are recorded as [none, v] records *)
Split(s, c) ==
  IF c.node # Node(s) THEN "node"
  ELSE IF c.domain # Some(Domain(s)) THEN "domain"
  ELSE IF c.resource # Resource(s) THEN "resource"
  ELSE IF c.bare # Some(Bare(s)) THEN "bare"
  ELSE "ok"
Why(c) ==
  CASE c.op = "split" -> Split(c.in, c)
    [] c.op = "new" ->
         IF MustRefuse(c.n, c.d, c.r) THEN (IF c.jid.none THEN "ok" ELSE "built an invalid jid")
         ELSE IF c.jid.none THEN (IF MustBuild(c.n, c.d, c.r) THEN "refused valid parts" ELSE "ok")
         ELSE IF c.jid.v # Join(c.n, c.d.v, c.r) THEN "wrong jid"
         ELSE IF MustBuild(c.n, c.d, c.r) /\ (c.node # c.n \/ c.domain # c.d \/ c.resource # c.r)
              THEN "splitting the built jid does not return the parts"
         ELSE Split(c.jid.v, c)
VARIABLES idx
Init == idx \in 1..8
Next == /\ idx <= Len(Cases)
        /\ LET w == Why(Cases[idx]) IN IF w = "ok" THEN TRUE ELSE PrintT(<<"REJECT", idx, w>>)
        /\ idx' = idx + 8
=============================================================================

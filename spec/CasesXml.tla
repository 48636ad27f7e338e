------------------------------ MODULE CasesXml ------------------------------
(* A case: b = the bytes of one stream (between two restarts), obs = the       *)
(* distinct event sequences the code produced over all chunkings of b.         *)
EXTENDS Xml, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Front(s) == SubSeq(s, 1, Len(s) - 1)
NoErr(e) == IF e # <<>> /\ e[Len(e)].k = "error" THEN Front(e) ELSE e
(* the input stops inside a token: whether it is already hopeless is not fixed *)
Settled(s) == s.m \in {"text", "prolog", "epilog", "start"} /\ s.u[1] = 0
Why(c) ==
  LET s == XmlRun(c.b) IN
  IF Len(c.obs) # 1 THEN "the events depend on the chunking"
  ELSE IF s.m = "unk" THEN
       (* the described part of the input must still come out as described *)
       IF Len(c.obs[1]) >= Len(s.ev) /\ EvsMatch(s.ev, SubSeq(c.obs[1], 1, Len(s.ev))) THEN "ok" ELSE "prefix differs"
  ELSE IF EvsMatch(s.ev, c.obs[1]) THEN "ok"
  ELSE IF ~Settled(s) /\ EvsMatch(NoErr(s.ev), NoErr(c.obs[1])) THEN "ok"
  ELSE "the events are not those of the XML"
VARIABLES idx
Init == idx \in 1..8
Next == /\ idx <= Len(Cases)
        /\ LET w == Why(Cases[idx]) IN IF w = "ok" THEN TRUE ELSE PrintT(<<"REJECT", idx, w>>)
        /\ idx' = idx + 8
=============================================================================

----------------------------- MODULE CasesBase64 ----------------------------
(* Judges recorded calls of xmpp_base64_encode / _decode_bin / _decode_str.   *)
EXTENDS Base64, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
HasNul(s) == \E i \in 1..Len(s) : s[i] = 0
(* a case: op, in (bytes), null (result was NULL), out (bytes), len *)
Why(c) ==
  CASE c.op = "enc" -> IF c.null THEN "refused"
                       ELSE IF c.out # Enc(c.in) THEN "wrong encoding" ELSE "ok"
    [] c.op = "bin" ->
         IF ~Valid(c.in) THEN (IF c.null /\ c.len = 0 THEN "ok" ELSE "accepted invalid input")
         ELSE IF c.null THEN (IF c.in = <<>> \/ ~Canonical(c.in) THEN (IF c.len = 0 THEN "ok" ELSE "length without data")
                              ELSE "refused valid input")
         ELSE IF c.len # Len(c.out) THEN "length mismatch"
         ELSE IF c.out # Dec(c.in) THEN "wrong value" ELSE "ok"
    [] c.op = "str" ->
         IF ~Valid(c.in) THEN (IF c.null THEN "ok" ELSE "accepted invalid input")
         ELSE IF HasNul(Dec(c.in)) THEN (IF c.null THEN "ok" ELSE "returned a value containing NUL")
         ELSE IF c.null THEN (IF ~Canonical(c.in) THEN "ok" ELSE "refused valid input")
         ELSE IF c.out # Dec(c.in) THEN "wrong value" ELSE "ok"
VARIABLES idx
Init == idx \in 1..8
Next == /\ idx <= Len(Cases)
        /\ LET w == Why(Cases[idx]) IN IF w = "ok" THEN TRUE ELSE PrintT(<<"REJECT", idx, w>>)
        /\ idx' = idx + 8
=============================================================================

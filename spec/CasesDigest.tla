----------------------------- MODULE CasesDigest ----------------------------
(* Recorded digests.  kind "msg": one message, every recorded result (one-shot *)
(* and all splits, binary and hex forms) must equal the digest computed here.  *)
(* kind "key": SCRAM keys (HMAC/PBKDF2).  kind "long": bulk message.           *)
(* kind "self": agreement of the bulk operators with the pure definitions.     *)
EXTENDS Digest, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Why(c) ==
  CASE c.kind = "msg" ->
         LET d == Hash(c.alg, c.msg)
             hx == Hex(d)
         IN IF \E i \in 1..Len(c.outs) : c.outs[i] # d THEN "digest differs"
            ELSE IF \E i \in 1..Len(c.hexes) : c.hexes[i] # hx THEN "hex form differs"
            ELSE IF c.bad # 0 THEN "accepted a too small buffer" ELSE "ok"
    [] c.kind = "key" ->
         LET ck == HMACdef(c.alg, Hidef(c.alg, c.pw, c.salt, c.it), <<67,108,105,101,110,116,32,75,101,121>>)
             sg == HMACdef(c.alg, Hash(c.alg, ck), c.msg)
         IN IF c.key # ck THEN "ClientKey differs"
            ELSE IF c.sig # sg THEN "ClientSignature differs"
            ELSE IF c.proof # XorSeq(ck, sg) THEN "ClientProof differs" ELSE "ok"
    [] c.kind = "fastkey" ->
         LET ck == ClientKey(c.alg, c.pw, c.salt, c.it)
             sg == ClientSig(c.alg, ck, c.msg)
         IN IF c.key # ck THEN "ClientKey differs"
            ELSE IF c.sig # sg THEN "ClientSignature differs"
            ELSE IF c.proof # XorSeq(ck, sg) THEN "ClientProof differs" ELSE "ok"
    [] c.kind = "long" -> IF c.out # LongHash(c.alg, c.unit, c.reps, c.tail) THEN "digest differs" ELSE "ok"
    [] c.kind = "self" ->
         IF LongHash(c.alg, c.unit, c.reps, c.tail) # Hash(c.alg, Long(c.unit, c.reps, c.tail)) THEN "SELF LongHash"
         ELSE IF FastHash(c.alg, c.msg) # Hash(c.alg, c.msg) THEN "SELF FastHash"
         ELSE IF HMAC(c.alg, c.msg, c.msg) # HMACdef(c.alg, c.msg, c.msg) THEN "SELF HMAC"
         ELSE IF Hi(c.alg, c.msg, <<1, 2, 3>>, 2) # Hidef(c.alg, c.msg, <<1, 2, 3>>, 2) THEN "SELF Hi" ELSE "ok"
VARIABLES idx
Init == idx \in 1..8
Next == /\ idx <= Len(Cases)
        /\ LET w == Why(Cases[idx]) IN IF w = "ok" THEN TRUE ELSE PrintT(<<"REJECT", idx, w>>)
        /\ idx' = idx + 8
=============================================================================

------------------------------ MODULE CasesSasl ------------------------------
(* Recorded authentication attempts.  kind:                                   *)
(*  scram    alg, plus, node, pw, first, xs = challenges with the responses   *)
(*  digest   node, domain, pw, first, xs                                      *)
(*  plain, external, anonymous, legacy, component: one message                *)
(*  nonces   all the nonces of a run                                          *)
(* In xs every element is [ch: text of the challenge, rs: sequence of the     *)
(* client's responses to it (at most one)].                                   *)
EXTENDS Sasl, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)

B64ok(t) == Valid(t) /\ Canonical(t)

ScramStep(c, f, cb, x, n) ==
  LET sf == IF Valid(x.ch) THEN Dec(x.ch) ELSE <<>>
      q == IF Valid(x.ch) THEN SrvFirst(sf, f.nonce) ELSE [ans |-> "no", r |-> <<>>, s |-> <<>>, i |-> 0]
  IN IF x.rs = <<>> THEN (IF n = 1 /\ q.ans = "yes" THEN "no answer to a valid challenge" ELSE "ok")
     ELSE IF Len(x.rs) > 1 THEN "answered more than once"
     ELSE IF q.ans = "no" THEN "answered an invalid challenge"
     ELSE IF ~B64ok(x.rs[1]) THEN "final message is not base64"
     ELSE IF 0 \in {sf[k] : k \in 1..Len(sf)} \/ q.r = <<>> THEN "ok"
     ELSE IF Dec(x.rs[1]) = Final(c.alg, c.pw, f, cb, sf, q) THEN (IF PrepMap(c.pw) # c.pw THEN "password is not normalised" ELSE "ok")
     ELSE IF PrepMap(c.pw) # c.pw /\ Dec(x.rs[1]) = Final(c.alg, PrepMap(c.pw), f, cb, sf, q) THEN "ok"
     ELSE LET m == Dec(x.rs[1])
              wo == FinalNoProof(f.gs2, cb, q.r)
          IN IF ~IsPrefixOf(Attr(99, Enc(f.gs2 \o cb)) \o <<COMMA>>, m) THEN "channel binding field differs"
             ELSE IF ~IsPrefixOf(wo \o <<COMMA>>, m) THEN "nonce is not the server's"
             ELSE "proof does not verify"

ScramWhy(c) ==
  IF ~B64ok(c.first) THEN "first message is not base64"
  ELSE LET f == First(Dec(c.first)) IN
       IF ~f.ok THEN "first message is malformed"
       ELSE IF f.authzid # <<>> THEN "authorization identity"
       ELSE IF ~f.user.ok \/ f.user.v # c.node THEN "user name differs"
       ELSE IF f.nonce = <<>> \/ \E i \in 1..Len(f.nonce) : ~NonceByte(f.nonce[i]) THEN "malformed nonce"
       ELSE IF c.plus = 1 /\ f.flag \notin {UNIQUE, EXPORTER} THEN "no channel binding with -PLUS"
       ELSE IF c.plus = 1 /\ c.sec = 0 THEN "-PLUS without TLS"
       ELSE IF c.plus = 1 /\ f.flag = UNIQUE /\ c.tls13 = 1 THEN "tls-unique is not defined for TLS 1.3"
       ELSE IF c.plus = 0 /\ f.flag \notin {FlagN, FlagY} THEN "channel binding without -PLUS"
       ELSE IF f.flag = FlagY /\ c.offplus = 1 THEN "claims that -PLUS was not offered"
       ELSE IF c.plus = 0 /\ c.sec = 1 /\ c.offplus = 0 /\ f.flag = FlagN THEN "claims not to support channel binding"
       ELSE LET cb == IF f.flag = UNIQUE THEN c.unique ELSE IF f.flag = EXPORTER THEN c.exporter ELSE <<>>
                bad == SelectSeq([i \in 1..Len(c.xs) |-> ScramStep(c, f, cb, c.xs[i], i)], LAMBDA w : w # "ok")
            IN IF bad = <<>> THEN "ok" ELSE bad[1]

DigestStep(c, x, n) ==
  LET ch == IF Valid(x.ch) THEN Dirs(Dec(x.ch)) ELSE [ok |-> FALSE, d |-> <<>>]
      a == ChalAnswer(ch)
  IN IF n > 1 THEN (IF x.rs # <<>> /\ x.rs[1] # <<>> THEN "data after the response" ELSE "ok")
     ELSE IF x.rs = <<>> THEN (IF a = "yes" THEN "no answer to a valid challenge" ELSE "ok")
     ELSE IF Len(x.rs) > 1 THEN "answered more than once"
     ELSE IF a = "no" THEN "answered an impossible challenge"
     ELSE IF a = "may" THEN "ok"
     ELSE IF ~B64ok(x.rs[1]) THEN "response is not base64"
     ELSE DigestWhy(c.node, c.domain, c.pw, ch, Dec(x.rs[1]))

Why(c) ==
  CASE c.kind = "scram" -> ScramWhy(c)
    [] c.kind = "digest" ->
         IF c.first \notin {<<>>} THEN "initial response"
         ELSE LET bad == SelectSeq([i \in 1..Len(c.xs) |-> DigestStep(c, c.xs[i], i)], LAMBDA w : w # "ok")
              IN IF bad = <<>> THEN "ok" ELSE bad[1]
    [] c.kind = "plain" -> IF c.first = Enc(PlainMsg(c.node, c.pw)) THEN "ok" ELSE "PLAIN message differs"
    [] c.kind = "external" -> IF ExternalOk(c.first, c.addrs, c.bare) THEN "ok" ELSE "EXTERNAL carries another identity"
    [] c.kind = "anonymous" -> IF c.first \in {<<>>, <<EQ>>} THEN "ok" ELSE "ANONYMOUS carries data"
    [] c.kind = "legacy" -> IF c.user # <<c.node>> \/ c.pass # <<c.pw>> \/ c.res # <<c.resource>> \/ c.others # 0 THEN "legacy fields differ" ELSE "ok"
    [] c.kind = "component" -> IF c.data = Handshake(c.id, c.pw) THEN "ok" ELSE "handshake differs"
    [] c.kind = "nonces" -> IF Cardinality({c.list[i] : i \in 1..Len(c.list)}) = Len(c.list) THEN "ok" ELSE "a nonce was used again"
VARIABLES idx
Init == idx \in 1..8
Next == /\ idx <= Len(Cases)
        /\ LET w == Why(Cases[idx]) IN IF w = "ok" THEN TRUE ELSE PrintT(<<"REJECT", idx, w>>)
        /\ idx' = idx + 8
=============================================================================

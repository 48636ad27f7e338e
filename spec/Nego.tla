-------------------------------- MODULE Nego --------------------------------
(* Stream negotiation as seen at the socket and in the callbacks (properties C02  *)
(* and C03).  Step(S, e) is the transition function of the observer: what the     *)
(* server has offered and answered so far decides what the client may send and    *)
(* what the user may be told.  Rules selects the property that is judged:         *)
(* "C02" credentials vs policy, "C03" order/offers/connected.                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANT Rules
OK(s) == [ok |-> "", s |-> s]
No(s, why) == [ok |-> why, s |-> s]
Range(q) == {q[i] : i \in 1..Len(q)}

Strong == {"m:SCRAM-SHA-1", "m:SCRAM-SHA-256", "m:SCRAM-SHA-512", "m:SCRAM-SHA-1-PLUS", "m:SCRAM-SHA-256-PLUS",
           "m:SCRAM-SHA-512-PLUS", "m:DIGEST-MD5"}
Plus == {"m:SCRAM-SHA-1-PLUS", "m:SCRAM-SHA-256-PLUS", "m:SCRAM-SHA-512-PLUS"}
Cfg0 == [kind |-> "client", dom |-> "-", node |-> "-", bare |-> "-", res |-> "-", hasres |-> 0, dis |-> 0, mand |-> 0, lssl |-> 0,
         legacy |-> 0, nosm |-> 0, comp |-> 0, cert |-> 0, havepw |-> 0, cool |-> 0]
(* one transport connection                                                       *)
Conn0 == [open |-> TRUE,          \* a stream header is due
          hdrs |-> 0,             \* headers received
          off |-> {}, post |-> {},     \* features: ever on this connection / since authentication
          sure |-> {}, fresh |-> FALSE, ans |-> FALSE, \* those which came where they belong; a stream was opened, no features yet; the client's last header was answered
          sec |-> FALSE, tlsReq |-> FALSE, proceed |-> FALSE, z |-> FALSE, zReq |-> FALSE,
          auths |-> 0, fails |-> 0, chal |-> 0, resp |-> 0, authed |-> FALSE,
          bindReq |-> FALSE, bindOk |-> FALSE, sessReq |-> FALSE, sessOk |-> FALSE,
          enReq |-> FALSE, enRep |-> FALSE, resReq |-> FALSE, resOk |-> FALSE, resFail |-> FALSE,
          legReq |-> FALSE, legOk |-> FALSE, hsReq |-> FALSE, hsOk |-> FALSE, closed |-> FALSE, hello |-> FALSE,
          early |-> {},           \* answers to nothing: [k, lp]
          may |-> {}]             \* kinds of answers which may have met the request while both were under way
Init0 == [cfg |-> Cfg0, c |-> Conn0, att |-> FALSE, up |-> 0]

Win == 1      \* loop iterations a request or an answer may be under way
Has(c, flag, kinds) == flag \/ c.may \cap kinds # {}
Authed(c) == Has(c, c.authed, {"success"})
BindOk(c) == Has(c, c.bindOk, {"bindres"})
SessOk(c) == Has(c, c.sessOk, {"sessres"})
Offers(c) == IF c.may \cap {"success"} # {} THEN c.off ELSE c.post
MayOpen(c) == Has(c, c.open, {"success", "compressed", "compressed0"})
Complete(S) ==
  LET c == S.c IN
  CASE S.cfg.kind = "client" ->
         \/ Authed(c) /\ c.bindReq /\ BindOk(c) /\ (c.sessReq => SessOk(c)) /\ (c.enReq => Has(c, c.enRep, {"enabled", "failed"}))
         \/ Authed(c) /\ c.resReq /\ Has(c, c.resOk, {"resumed"})
         \/ c.legReq /\ Has(c, c.legOk, {"legres"})
    [] S.cfg.kind = "component" -> c.hsReq /\ Has(c, c.hsOk, {"handshake"})
    [] OTHER -> TRUE

(* a cooperating server and this configuration must end up connected               *)
Usable(S) ==
  LET c == S.c  g == S.cfg IN
  /\ g.mand = 1 => c.sec
  /\ ~(c.hello /\ ~c.sec /\ g.cool = 0)
  /\ ~(g.dis = 1 /\ (g.mand = 1 \/ g.lssl = 1))
  /\ \/ g.node = "-" /\ "m:ANONYMOUS" \in c.sure
     \/ "m:EXTERNAL" \in c.sure /\ g.cert = 1 /\ g.cool = 1 /\ c.sec
     \/ g.node # "-" /\ g.havepw = 1 /\ (c.sec \/ c.off \cap Plus = {}) /\ c.off \cap (Strong \cup {"m:PLAIN"}) # {}
MustBeUp(S) ==
  CASE S.cfg.kind = "client" -> Usable(S) /\ (S.c.authed => "bind" \in S.c.post \/ S.c.resOk) 
    [] S.cfg.kind = "component" -> S.cfg.havepw = 1 /\ S.c.hdrs > 0
    [] OTHER -> FALSE

R(p) == p \in Rules
(* ------------------------------------------------------------- what is sent *)
Due(S) == S.c.open /\ S.cfg.kind # "raw"
TxOpen(S, e) ==
  LET c == S.c  g == S.cfg IN
  IF ~R("C03") THEN ""
  ELSE IF ~MayOpen(c) THEN "a stream header that no layer change calls for"
  ELSE IF e.to # g.dom THEN "the stream header names another domain"
  ELSE IF e.frm # "-" /\ ~c.sec THEN "the stream header reveals the user's address in the clear"
  ELSE IF e.frm # "-" /\ e.frm # g.bare THEN "the stream header carries another address"
  ELSE IF e.ns # (IF g.kind = "component" THEN "jabber:component:accept" ELSE "jabber:client") THEN "wrong content namespace"
  ELSE ""
TxReq(S, e) ==
  LET c == S.c  g == S.cfg IN
  IF R("C03") /\ c.open /\ ~(e.k = "response" /\ c.resp < c.chal) /\ e.k \notin {"close", "serror"} THEN "a request without the stream restart"
  ELSE
  CASE e.k = "starttls" ->
         IF R("C02") /\ g.dis = 1 THEN "STARTTLS although the user disabled TLS"
         ELSE IF ~R("C03") THEN ""
         ELSE IF g.kind # "client" \/ "starttls" \notin c.off THEN "STARTTLS that was not offered"
         ELSE IF c.sec \/ c.tlsReq THEN "STARTTLS twice"
         ELSE IF c.auths > 0 THEN "STARTTLS after authentication began" ELSE ""
    [] e.k = "auth" ->
         IF R("C02") /\ g.mand = 1 /\ ~c.sec THEN "authentication before TLS although TLS is mandatory"
         ELSE IF R("C02") /\ g.mand = 1 /\ e.sec = 0 THEN "authentication in the clear although TLS is mandatory"
         ELSE IF R("C02") /\ e.mech = "PLAIN" /\ (c.sure \cap Strong # {} \/ ("m:EXTERNAL" \in c.sure /\ g.cert = 1))
              THEN "SASL PLAIN although a stronger mechanism was offered"
         ELSE IF ~R("C03") THEN ""
         ELSE IF g.kind # "client" THEN "SASL on a component stream"
         ELSE IF ("m:" \o e.mech) \notin c.off THEN "a SASL mechanism that was not offered"
         ELSE IF c.authed THEN "authentication after it succeeded"
         ELSE IF c.auths > c.fails /\ "failure" \notin c.may THEN "a second authentication while one is going on"
         ELSE IF c.tlsReq /\ ~c.sec THEN "authentication while TLS is being negotiated" ELSE ""
    [] e.k = "response" ->
         IF R("C02") /\ g.mand = 1 /\ (~c.sec \/ e.sec = 0) THEN "a SASL response before TLS although TLS is mandatory"
         ELSE IF R("C03") /\ c.resp >= c.chal /\ "challenge" \notin c.may THEN "a SASL response without a challenge"
         ELSE IF R("C03") /\ c.auths = 0 THEN "a SASL response without authentication" ELSE ""
    [] e.k = "legacy" ->
         IF R("C02") /\ g.legacy = 0 THEN "legacy authentication although the user did not enable it"
         ELSE IF R("C02") /\ g.mand = 1 /\ (~c.sec \/ e.sec = 0) THEN "legacy authentication before TLS although TLS is mandatory"
         ELSE IF R("C03") /\ (c.authed \/ c.legReq \/ g.kind # "client" \/ (c.auths > c.fails /\ "failure" \notin c.may)) THEN "legacy authentication out of order" ELSE ""
    [] e.k = "compress" ->
         IF ~R("C03") THEN ""
         ELSE IF ~Authed(c) THEN "compression before authentication"
         ELSE IF "zlib" \notin c.off \/ e.method # "zlib" THEN "a compression method that was not offered"
         ELSE IF c.z \/ c.zReq THEN "compression twice"
         ELSE IF g.comp = 0 THEN "compression although the user did not allow it"
         ELSE IF c.bindReq \/ c.resReq THEN "compression after binding" ELSE ""
    [] e.k = "bind" ->
         IF ~R("C03") THEN ""
         ELSE IF ~Authed(c) THEN "bind before authentication"
         ELSE IF "bind" \notin Offers(c) THEN "bind that was not offered"
         ELSE IF c.bindReq THEN "bind twice"
         ELSE IF c.resReq /\ ~Has(c, c.resFail, {"failed"}) THEN "bind while a resumption is going on"
         ELSE IF e.res # g.res THEN "bind asks for another resource" ELSE ""
    [] e.k = "session" ->
         IF ~R("C03") THEN ""
         ELSE IF ~(c.bindReq /\ BindOk(c)) THEN "session before bind"
         ELSE IF "session" \notin Offers(c) THEN "session that was not offered"
         ELSE IF c.sessReq THEN "session twice" ELSE ""
    [] e.k = "enable" ->
         IF ~R("C03") THEN ""
         ELSE IF "sm" \notin Offers(c) THEN "stream management that was not offered"
         ELSE IF ~(c.bindReq /\ BindOk(c)) \/ (c.sessReq /\ ~SessOk(c)) THEN "stream management before bind"
         ELSE IF g.nosm = 1 THEN "stream management although the user disabled it"
         ELSE IF c.enReq THEN "stream management enabled twice" ELSE ""
    [] e.k = "resume" ->
         IF ~R("C03") THEN ""
         ELSE IF "sm" \notin Offers(c) THEN "resumption that was not offered"
         ELSE IF ~Authed(c) \/ c.bindReq THEN "resumption out of order"
         ELSE IF g.nosm = 1 THEN "resumption although the user disabled stream management"
         ELSE IF c.resReq THEN "resumption twice" ELSE ""
    [] e.k \in {"r", "a"} ->
         IF R("C03") /\ ~(c.enReq \/ c.resReq) THEN "a stream management element without stream management" ELSE ""
    [] e.k = "handshake" ->
         IF ~R("C03") THEN ""
         ELSE IF g.kind # "component" THEN "a component handshake on a client stream"
         ELSE IF c.hdrs = 0 THEN "a component handshake before the stream was opened"
         ELSE IF c.hsReq THEN "a component handshake twice" ELSE ""
    [] e.k = "stanza" -> IF R("C03") /\ S.up = 0 THEN "a stanza before the negotiation was completed" ELSE ""
    [] e.k \in {"close", "serror", "abort"} -> ""
    [] OTHER -> IF R("C03") /\ S.up = 0 THEN "something unexpected was sent during negotiation" ELSE ""
Met(c, e) == IF e.k \in {"starttls", "auth", "legacy", "compress", "bind", "session", "enable", "resume", "handshake", "open", "response"}
             THEN [c EXCEPT !.may = @ \cup {x.k : x \in {y \in c.early : y.lp + Win >= e.lp}}] ELSE c
Mark(c, e) ==
  CASE e.k = "open" ->        \* restarting shows which answer the client has seen
         IF c.open THEN [c EXCEPT !.open = FALSE, !.ans = FALSE, !.fresh = FALSE]
         ELSE IF "success" \in c.may /\ ~c.authed THEN [c EXCEPT !.authed = TRUE, !.post = c.off]
         ELSE [c EXCEPT !.z = TRUE]
    [] e.k = "starttls" -> [c EXCEPT !.tlsReq = TRUE]
    [] e.k = "auth" -> [c EXCEPT !.auths = @ + 1, !.chal = 0, !.resp = 0]
    [] e.k = "response" -> [c EXCEPT !.resp = @ + 1]
    [] e.k = "legacy" -> [c EXCEPT !.legReq = TRUE]
    [] e.k = "compress" -> [c EXCEPT !.zReq = TRUE]
    [] e.k = "bind" -> [c EXCEPT !.bindReq = TRUE]
    [] e.k = "session" -> [c EXCEPT !.sessReq = TRUE]
    [] e.k = "enable" -> [c EXCEPT !.enReq = TRUE]
    [] e.k = "resume" -> [c EXCEPT !.resReq = TRUE]
    [] e.k = "handshake" -> [c EXCEPT !.hsReq = TRUE]
    [] e.k = "close" -> [c EXCEPT !.closed = TRUE]
    [] OTHER -> c
(* the password in reversible form                                                 *)
Leak(S, e) ==
  IF ~R("C02") \/ e.pw = 0 THEN ""
  ELSE IF e.k = "auth" /\ e.mech = "PLAIN" THEN ""
  ELSE IF e.k = "legacy" THEN ""
  ELSE "the password was sent in reversible form"

(* ------------------------------------------------------------- what is received *)
Rx(c, e) ==
  CASE e.k = "open" -> [c EXCEPT !.hdrs = @ + 1, !.fresh = ~c.open /\ ~c.ans, !.ans = ~c.open]
    [] e.k = "features" -> [c EXCEPT !.off = @ \cup Range(e.f), !.post = IF c.authed \/ "success" \in c.may THEN @ \cup Range(e.f) ELSE @,
                                     !.sure = IF c.fresh THEN @ \cup Range(e.f) ELSE @, !.fresh = FALSE]
    [] e.k = "proceed" -> IF c.tlsReq THEN [c EXCEPT !.proceed = TRUE] ELSE c
    [] e.k = "success" -> IF c.auths > c.fails /\ ~c.authed THEN [c EXCEPT !.authed = TRUE, !.open = TRUE] ELSE c
    [] e.k = "failure" -> IF c.auths > c.fails THEN [c EXCEPT !.fails = @ + 1] ELSE c
    [] e.k = "challenge" -> IF c.auths > 0 THEN [c EXCEPT !.chal = @ + 1] ELSE c
    [] e.k \in {"compressed", "compressed0"} -> IF c.zReq /\ ~c.z THEN [c EXCEPT !.z = TRUE, !.open = TRUE] ELSE c
    [] e.k = "bindres" -> IF c.bindReq THEN [c EXCEPT !.bindOk = TRUE] ELSE c
    [] e.k = "sessres" -> IF c.sessReq THEN [c EXCEPT !.sessOk = TRUE] ELSE c
    [] e.k = "enabled" -> IF c.enReq THEN [c EXCEPT !.enRep = TRUE] ELSE c
    [] e.k = "resumed" -> IF c.resReq THEN [c EXCEPT !.resOk = TRUE] ELSE c
    [] e.k = "failed" -> IF c.enReq THEN [c EXCEPT !.enRep = TRUE] ELSE IF c.resReq THEN [c EXCEPT !.resFail = TRUE] ELSE c
    [] e.k = "legres" -> IF c.legReq THEN [c EXCEPT !.legOk = TRUE] ELSE c
    [] e.k = "handshake" -> IF c.hsReq THEN [c EXCEPT !.hsOk = TRUE] ELSE c
    [] OTHER -> c

Step(S, e) ==
  CASE e.e = "cfg" -> OK([S EXCEPT !.cfg = [x \in DOMAIN Cfg0 |-> e[x]]])
    [] e.e = "dial" -> OK(IF e.rc = 0 THEN [S EXCEPT !.att = TRUE, !.up = 0] ELSE S)
    [] e.e = "conn" -> OK([S EXCEPT !.c = Conn0])
    [] e.e = "hello" ->
         IF R("C02") /\ S.cfg.dis = 1 /\ S.cfg.kind # "raw" THEN No(S, "TLS was started although the user disabled it")
         ELSE IF R("C03") /\ S.cfg.kind # "raw" /\ S.cfg.lssl = 0 /\ ~Has(S.c, S.c.proceed, {"proceed"}) THEN No(S, "TLS was started before the server agreed")
         ELSE OK([S EXCEPT !.c.hello = TRUE])
    [] e.e = "tls" -> OK([S EXCEPT !.c.sec = TRUE, !.c.open = TRUE])
    [] e.e = "clear" -> IF R("C02") /\ S.c.hello THEN No(S, "clear text on a connection that was switched to TLS") ELSE OK(S)
    [] e.e = "tx" ->
         IF S.cfg.kind = "raw" THEN OK(S)
         ELSE LET w1 == IF e.k = "open" THEN TxOpen(S, e) ELSE TxReq(S, e)
                  w2 == Leak(S, e)
              IN IF w1 # "" THEN No(S, w1) ELSE IF w2 # "" THEN No(S, w2) ELSE OK([S EXCEPT !.c = Met(Mark(@, e), e)])
    [] e.e = "rx" -> LET c1 == Rx(S.c, e) IN
         OK([S EXCEPT !.c = IF c1 = S.c THEN [c1 EXCEPT !.early = {x \in @ : x.k # e.k} \cup {[k |-> e.k, lp |-> e.lp]}] ELSE c1])
    [] e.e = "cb" ->
         IF e.ce = "connect" THEN
           (IF R("C03") /\ S.cfg.kind # "raw" /\ ~S.att THEN No(S, "connected without an attempt")
            ELSE IF R("C03") /\ S.cfg.kind # "raw" /\ S.up > 0 THEN No(S, "connected was reported twice")
            ELSE IF R("C03") /\ ~Complete(S) THEN No(S, "connected before the negotiation was completed")
            ELSE OK([S EXCEPT !.up = 1]))
         ELSE IF e.ce = "raw" THEN
           (IF R("C03") /\ S.cfg.kind # "raw" THEN No(S, "raw connect on a connection that is negotiated") ELSE OK([S EXCEPT !.up = 1]))
         ELSE OK([S EXCEPT !.att = FALSE])
    [] e.e = "uh" -> IF R("C03") /\ S.cfg.kind # "raw" /\ S.up = 0 THEN No(S, "a user handler ran before the negotiation was completed") ELSE OK(S)
    [] e.e = "quiet" ->
         IF R("C03") /\ e.coop = 1 /\ S.att /\ S.up = 0 /\ MustBeUp(S) THEN No(S, "the negotiation was completed but the user was not told")
         ELSE IF R("C03") /\ e.coop = 1 /\ ~S.att /\ S.up = 0 /\ MustBeUp(S) THEN No(S, "the client gave up although the server cooperated")
         ELSE OK(S)
    [] OTHER -> No(S, "unknown event")
=============================================================================

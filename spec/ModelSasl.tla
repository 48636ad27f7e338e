------------------------------ MODULE ModelSasl ------------------------------
(* The client's messages against the server's checks, over small values: what *)
(* the client of Sasl says is accepted exactly by a server that knows the     *)
(* same password and sees the same channel, and by no other; every change of  *)
(* one byte of the final message is noticed; names and directives survive     *)
(* quoting.  The vectors of the RFCs are reproduced.                          *)
EXTENDS Sasl, TLC
CONSTANT Deep

ASSUME /\ LET f == First(<<110, 44, 44, 110, 61, 117, 115, 101, 114, 44, 114, 61, 102, 121, 107, 111, 43, 100, 50, 108, 98, 98, 70, 103, 79, 78, 82, 118, 57, 113, 107, 120, 100, 97, 119, 76>>) sf == <<114, 61, 102, 121, 107, 111, 43, 100, 50, 108, 98, 98, 70, 103, 79, 78, 82, 118, 57, 113, 107, 120, 100, 97, 119, 76, 51, 114, 102, 99, 78, 72, 89, 74, 89, 49, 90, 86, 118, 87, 86, 115, 55, 106, 44, 115, 61, 81, 83, 88, 67, 82, 43, 81, 54, 115, 101, 107, 56, 98, 102, 57, 50, 44, 105, 61, 52, 48, 57, 54>> q == SrvFirst(sf, f.nonce)
          IN q.ans = "yes" /\ q.i = 4096 /\ Final("sha1", <<112, 101, 110, 99, 105, 108>>, f, <<>>, sf, q) = <<99, 61, 98, 105, 119, 115, 44, 114, 61, 102, 121, 107, 111, 43, 100, 50, 108, 98, 98, 70, 103, 79, 78, 82, 118, 57, 113, 107, 120, 100, 97, 119, 76, 51, 114, 102, 99, 78, 72, 89, 74, 89, 49, 90, 86, 118, 87, 86, 115, 55, 106, 44, 112, 61, 118, 48, 88, 56, 118, 51, 66, 122, 50, 84, 48, 67, 74, 71, 98, 74, 81, 121, 70, 48, 88, 43, 72, 73, 52, 84, 115, 61>>
       /\ LET f == First(<<110, 44, 44, 110, 61, 117, 115, 101, 114, 44, 114, 61, 114, 79, 112, 114, 78, 71, 102, 119, 69, 98, 101, 82, 87, 103, 98, 78, 69, 107, 113, 79>>) sf == <<114, 61, 114, 79, 112, 114, 78, 71, 102, 119, 69, 98, 101, 82, 87, 103, 98, 78, 69, 107, 113, 79, 37, 104, 118, 89, 68, 112, 87, 85, 97, 50, 82, 97, 84, 67, 65, 102, 117, 120, 70, 73, 108, 106, 41, 104, 78, 108, 70, 36, 107, 48, 44, 115, 61, 87, 50, 50, 90, 97, 74, 48, 83, 78, 89, 55, 115, 111, 69, 115, 85, 69, 106, 98, 54, 103, 81, 61, 61, 44, 105, 61, 52, 48, 57, 54>> q == SrvFirst(sf, f.nonce)
          IN q.ans = "yes" /\ Final("sha256", <<112, 101, 110, 99, 105, 108>>, f, <<>>, sf, q) = <<99, 61, 98, 105, 119, 115, 44, 114, 61, 114, 79, 112, 114, 78, 71, 102, 119, 69, 98, 101, 82, 87, 103, 98, 78, 69, 107, 113, 79, 37, 104, 118, 89, 68, 112, 87, 85, 97, 50, 82, 97, 84, 67, 65, 102, 117, 120, 70, 73, 108, 106, 41, 104, 78, 108, 70, 36, 107, 48, 44, 112, 61, 100, 72, 122, 98, 90, 97, 112, 87, 73, 107, 52, 106, 85, 104, 78, 43, 85, 116, 101, 57, 121, 116, 97, 103, 57, 122, 106, 102, 77, 72, 103, 115, 113, 109, 109, 105, 122, 55, 65, 110, 100, 86, 81, 61>>
       /\ DigestValue(<<99, 104, 114, 105, 115>>, <<101, 108, 119, 111, 111, 100, 46, 105, 110, 110, 111, 115, 111, 102, 116, 46, 99, 111, 109>>, <<115, 101, 99, 114, 101, 116>>, <<79, 65, 54, 77, 71, 57, 116, 69, 81, 71, 109, 50, 104, 104>>, <<79, 65, 54, 77, 72, 88, 104, 54, 86, 113, 84, 114, 82, 107>>, vNc1, vAuth, <<105, 109, 97, 112, 47, 101, 108, 119, 111, 111, 100, 46, 105, 110, 110, 111, 115, 111, 102, 116, 46, 99, 111, 109>>, AUTHENTICATE) = <<100, 51, 56, 56, 100, 97, 100, 57, 48, 100, 52, 98, 98, 100, 55, 54, 48, 97, 49, 53, 50, 51, 50, 49, 102, 50, 49, 52, 51, 97, 102, 55>>
       /\ PlainMsg(<<116, 105, 109>>, <<116, 97, 110, 115, 116, 97, 97, 102, 116, 97, 110, 115, 116, 97, 97, 102>>) = <<0, 116, 105, 109, 0, 116, 97, 110, 115, 116, 97, 97, 102, 116, 97, 110, 115, 116, 97, 97, 102>>
       /\ Handshake(<<51, 66, 70, 57, 54, 68, 51, 50>>, <<115, 101, 99, 114, 101, 116>>) = <<98, 48, 57, 101, 97, 57, 98, 51, 98, 55, 102, 53, 56, 54, 98, 101, 56, 97, 48, 56, 100, 48, 97, 51, 100, 100, 55, 52, 54, 54, 102, 49, 49, 48, 97, 101, 98, 49, 51, 54>>
       /\ ToLatin(<<195, 188, 98>>) = <<252, 98>> /\ Latin(<<195, 188, 98>>) /\ ~Latin(<<197, 153>>) /\ Latin(<<>>)
       /\ PrepMap(<<73, 194, 173, 88>>) = <<73, 88>> /\ PrepMap(<<226, 133, 168>>) = <<73, 88>> /\ PrepMap(<<194, 170>>) = <<97>> /\ PrepMap(<<97, 194, 160, 98>>) = <<97, 32, 98>>
       /\ PrepMap(<<195, 169, 32, 98>>) = <<195, 169, 32, 98>>

Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
NChars == {97, COMMA, EQ, 50, 67}
PChars == {97, 195, QUOTE, BSL, COMMA}
Names == IF Deep THEN Seqs(NChars, 4) ELSE Seqs(NChars, 3)
QTexts == IF Deep THEN Seqs(PChars, 4) ELSE Seqs(PChars, 3)
Pws == {<<112>>, <<112, 113>>}
CbKinds == {"n", "y", "unique", "exporter"}
Flag(k) == CASE k = "n" -> FlagN [] k = "y" -> FlagY [] k = "unique" -> UNIQUE [] k = "exporter" -> EXPORTER
CbData(k) == IF k \in {"n", "y"} THEN <<>> ELSE IF k = "unique" THEN <<9, 8, 7>> ELSE <<1, 2, 3, 4>>
ClientFirst(k, name, nonce) == Flag(k) \o <<COMMA, COMMA>> \o Attr(110, SaslName(name)) \o <<COMMA>> \o Attr(114, nonce)
ServerFirst(nonce, ext, salt, it) == Attr(114, nonce \o ext) \o <<COMMA>> \o Attr(115, Enc(salt)) \o <<COMMA>> \o Attr(105, <<48 + it>>)

VARIABLES kind, a, b, c, done
vars == <<kind, a, b, c, done>>
Init ==
  /\ done = FALSE
  /\ \/ kind = "name" /\ a \in Names /\ b \in CbKinds /\ c = 0
     \/ kind = "scram" /\ a \in Pws /\ b \in CbKinds /\ c \in {<<alg, it, salt, ext>> : alg \in {"sha1", "sha256", "sha512"}, it \in 1..2, salt \in {<<0>>, <<1, 2, 3>>}, ext \in {<<>>, <<88>>}}
     \/ kind = "dir" /\ a \in QTexts /\ b \in {<<>>, <<32>>, <<9, 32>>} /\ c = 0
     \/ kind = "digest" /\ a \in {<<97>>, <<195, 188>>, <<197, 153>>} /\ b \in {<<98>>, <<195, 188>>, <<197, 153>>} /\ c \in 0..1
Next == ~done /\ done' = TRUE /\ UNCHANGED <<kind, a, b, c>>

NameOk ==
  /\ UnSaslName(SaslName(a)) = [ok |-> TRUE, v |-> a]
  /\ LET f == First(ClientFirst(b, a, <<78>>))
     IN f.ok /\ f.user = [ok |-> TRUE, v |-> a] /\ f.nonce = <<78>> /\ f.authzid = <<>> /\ f.flag = Flag(b) /\ f.gs2 = Flag(b) \o <<COMMA, COMMA>>
  \* what is no saslname is refused or is the name of something else
  /\ UnSaslName(a).ok => (SaslName(UnSaslName(a).v) = a)

ScramOk ==
  LET nonce == <<78, 111>>
      alg == c[1] it == c[2] salt == c[3] ext == c[4]
      f == First(ClientFirst(b, <<117, EQ>>, nonce))
      sf == ServerFirst(nonce, ext, salt, it)
      q == SrvFirst(sf, nonce)
      fin == Final(alg, a, f, CbData(b), sf, q)
      st(pw) == StoredKey(alg, pw, salt, it)
      ok(x, pw, cb, r) == ScramVerify(alg, st(pw), f, cb, sf, r, x)
  IN /\ q.ans = (IF ext = <<>> THEN "may" ELSE "yes")
     /\ ok(fin, a, CbData(b), nonce \o ext)
     /\ \A pw \in Pws \ {a} : ~ok(fin, pw, CbData(b), nonce \o ext)
     /\ ~ok(fin, a, <<5>>, nonce \o ext)
     /\ ~ok(fin, a, CbData(b), nonce \o ext \o <<90>>)
     /\ ~ScramVerify(alg, st(a), First(ClientFirst(IF b = "n" THEN "y" ELSE "n", <<117, EQ>>, nonce)), CbData(b), sf, nonce \o ext, fin)
     /\ ~ScramVerify(alg, st(a), First(ClientFirst(b, <<117>>, nonce)), CbData(b), sf, nonce \o ext, fin)
     /\ ~ScramVerify(alg, StoredKey(alg, a, salt \o <<1>>, it), f, CbData(b), sf, nonce \o ext, fin)
     /\ ~ScramVerify(alg, StoredKey(alg, a, salt, it + 1), f, CbData(b), sf, nonce \o ext, fin)
     /\ \A i \in 1..Len(fin) : ~ok([fin EXCEPT ![i] = IF @ = 65 THEN 66 ELSE 65], a, CbData(b), nonce \o ext)
     /\ SrvFirst(sf, nonce \o <<90>>).ans = "no" /\ SrvFirst(<<109, EQ, 97, COMMA>> \o sf, nonce).ans = "no"
     /\ \A i \in 1..Len(sf) : SrvFirst([sf EXCEPT ![i] = 33], nonce).ans # "yes" \/ i \in {Len(nonce) + 2 + j : j \in 1..Len(ext)}

DirOk ==
  LET s == kUser \o <<EQ>> \o Quoted(a) \o b \o <<COMMA>> \o b \o kNc \o <<EQ>> \o vNc1 \o b
      D == Dirs(s)
  IN /\ D.ok /\ Len(D.d) = 2
     /\ D.d[1] = [k |-> kUser, v |-> a, q |-> 1] /\ D.d[2] = [k |-> kNc, v |-> vNc1, q |-> 0]
     /\ ~Dirs(kUser \o <<EQ>> \o SubSeq(Quoted(a), 1, Len(Quoted(a)) - 1)).ok

DigestOk ==
  LET ch == Dirs(kNonce \o <<EQ>> \o Quoted(<<78>>) \o <<COMMA>> \o kAlg \o <<EQ>> \o vMd5sess
                 \o (IF c = 1 THEN <<COMMA>> \o kCharset \o <<EQ>> \o vUtf8 ELSE <<>>))
      dom == <<100>>
      lat(s) == IF Latin(s) THEN ToLatin(s) ELSE s
      un == IF c = 1 THEN a ELSE lat(a)
      resp(u, hu, hp, dm, rl) ==
        kUser \o <<EQ>> \o Quoted(u) \o <<COMMA>> \o kRealm \o <<EQ>> \o Quoted(rl) \o <<COMMA>> \o kNonce \o <<EQ>> \o Quoted(<<78>>)
        \o <<COMMA>> \o kCnonce \o <<EQ>> \o Quoted(<<67>>) \o <<COMMA>> \o kNc \o <<EQ>> \o vNc1 \o <<COMMA>> \o kQop \o <<EQ>> \o vAuth
        \o <<COMMA>> \o kUri \o <<EQ>> \o Quoted(vXmpp \o dm) \o <<COMMA>> \o kResp \o <<EQ>>
        \o DigestValue(hu, rl, hp, <<78>>, <<67>>, vNc1, vAuth, vXmpp \o dm, AUTHENTICATE)
        \o (IF c = 1 THEN <<COMMA>> \o kCharset \o <<EQ>> \o vUtf8 ELSE <<>>)
  IN /\ ChalAnswer(ch) = "yes"
     /\ DigestWhy(a, dom, b, ch, resp(un, lat(a), lat(b), dom, dom)) = "ok"
     /\ DigestWhy(a, dom, b, ch, resp(un, lat(a), <<120>>, dom, dom)) # "ok"
     /\ DigestWhy(a, dom, b, ch, resp(un, <<120>>, lat(b), dom, dom)) # "ok"
     /\ DigestWhy(a, dom, b, ch, resp(<<120>>, lat(a), lat(b), dom, dom)) # "ok" \/ (c = 0 /\ ~Latin(a))
     /\ DigestWhy(a, dom, b, ch, resp(un, lat(a), lat(b), <<101>>, dom)) # "ok"
     /\ DigestWhy(a, dom, b, ch, resp(un, lat(a), lat(b), dom, <<101>>)) # "ok"
     /\ LET g == resp(un, lat(a), lat(b), dom, dom)
        IN \A i \in 1..Len(g) : DigestWhy(a, dom, b, ch, [g EXCEPT ![i] = IF @ = 65 THEN 66 ELSE 65]) # "ok" \/ (c = 0 /\ ~Latin(a) /\ i < 14)

Ok == CASE kind = "name" -> NameOk [] kind = "scram" -> ScramOk [] kind = "dir" -> DirOk [] kind = "digest" -> DigestOk
=============================================================================

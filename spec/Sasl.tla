-------------------------------- MODULE Sasl --------------------------------
(* What the client says to authenticate, as values of what it was given:      *)
(* RFC 5802/7677 (SCRAM, with channel bindings), RFC 2831 (DIGEST-MD5),       *)
(* RFC 4616 (PLAIN), XEP-0178 (EXTERNAL), XEP-0078 (legacy) and XEP-0114.     *)
(*                                                                            *)
(* All texts are sequences of bytes.  The client side is given as the set of  *)
(* admissible messages, the server side (ScramVerify, DigestVerify) as the    *)
(* peer's check; ModelSasl relates the two.                                   *)
EXTENDS Digest, Base64, SequencesExt, FiniteSets

COMMA == 44
EQ == 61
QUOTE == 34
BSL == 92
LWS == {32, 9, 13, 10}
Digits == 48 .. 57

(* --------------------------------------------------------------- texts *)
IsPrefixOf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Drop(s, n) == SubSeq(s, n + 1, Len(s))
(* pieces of s between the separators *)
SplitAt(s, sep) ==
  FoldLeft(LAMBDA a, c : IF c = sep THEN Append(a, <<>>)
                         ELSE [a EXCEPT ![Len(a)] = Append(@, c)], << <<>> >>, s)
Cat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)
Num(s) == FoldLeft(LAMBDA a, c : IF a > 1000000 THEN a ELSE a * 10 + (c - 48), 0, s)
IsNum(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : s[i] \in Digits

(* UTF-8 that has only characters below U+0100 *)
Latin(s) ==
  \A i \in 1..Len(s) :
     \/ s[i] < 128
     \/ s[i] \in {194, 195} /\ i < Len(s) /\ s[i + 1] \in 128 .. 191
     \/ s[i] \in 128 .. 191 /\ i > 1 /\ s[i - 1] \in {194, 195}
ToLatin(s) ==
  FoldLeft(LAMBDA a, i : IF s[i] < 128 THEN Append(a, s[i])
                         ELSE IF s[i] \in {194, 195} THEN a
                         ELSE Append(a, (s[i - 1] - 192) * 64 + (s[i] - 128)),
           <<>>, [i \in 1..Len(s) |-> i])

(* --------------------------------------------------------------- SCRAM *)
SaslName(s) == Cat([i \in 1..Len(s) |-> IF s[i] = COMMA THEN <<61, 50, 67>> ELSE IF s[i] = EQ THEN <<61, 51, 68>> ELSE <<s[i]>>])
(* what a server reads from it; <<>> of <<>> when it is not a saslname *)
UnSaslName(t) ==
  LET r == FoldLeft(LAMBDA a, c :
             IF ~a.ok THEN a
             ELSE IF a.st = <<>> THEN (IF c = EQ THEN [a EXCEPT !.st = <<EQ>>] ELSE IF c = COMMA \/ c = 0 THEN [a EXCEPT !.ok = FALSE] ELSE [a EXCEPT !.out = Append(@, c)])
             ELSE IF Len(a.st) = 1 THEN (IF c \in {50, 51} THEN [a EXCEPT !.st = Append(@, c)] ELSE [a EXCEPT !.ok = FALSE])
             ELSE IF a.st[2] = 50 /\ c = 67 THEN [a EXCEPT !.st = <<>>, !.out = Append(@, COMMA)]
             ELSE IF a.st[2] = 51 /\ c = 68 THEN [a EXCEPT !.st = <<>>, !.out = Append(@, EQ)]
             ELSE [a EXCEPT !.ok = FALSE],
             [ok |-> TRUE, st |-> <<>>, out |-> <<>>], t)
  IN [ok |-> r.ok /\ r.st = <<>>, v |-> r.out]

Attr(c, v) == <<c, EQ>> \o v

NonceByte(c) == c \in 33 .. 126 /\ c # COMMA

(* the client's first message, taken apart *)
First(m) ==
  LET p == SplitAt(m, COMMA)
      shape == Len(p) = 4 /\ Len(p[3]) >= 2 /\ Len(p[4]) >= 2
  IN IF ~shape THEN [ok |-> FALSE]
     ELSE [ok |-> /\ IsPrefixOf(<<110, EQ>>, p[3]) /\ IsPrefixOf(<<114, EQ>>, p[4]),
           flag |-> p[1], authzid |-> p[2], user |-> UnSaslName(Drop(p[3], 2)), nonce |-> Drop(p[4], 2),
           gs2 |-> p[1] \o <<COMMA>> \o p[2] \o <<COMMA>>, bare |-> p[3] \o <<COMMA>> \o p[4]]

UNIQUE == <<112, 61, 116, 108, 115, 45, 117, 110, 105, 113, 117, 101>>                 \* p=tls-unique
EXPORTER == <<112, 61, 116, 108, 115, 45, 101, 120, 112, 111, 114, 116, 101, 114>>     \* p=tls-exporter
FlagN == <<110>>
FlagY == <<121>>

(* the server's first message.  "yes": the client has to go on with it; "no": *)
(* it must not; "may": unusual, the client may do either                      *)
SrvFirst(m, cnonce) ==
  LET p == SplitAt(m, COMMA)
      has(c) == {i \in 1..Len(p) : IsPrefixOf(<<c, EQ>>, p[i])}
      val(c) == Drop(p[CHOOSE i \in has(c) : TRUE], 2)
      one == \A c \in {114, 115, 105} : Cardinality(has(c)) = 1
      attrs == \A i \in 1..Len(p) : Len(p[i]) >= 2 /\ p[i][2] = EQ /\ (p[i][1] \in 97..122 \/ p[i][1] \in 65..90)
      none == [ans |-> "no", r |-> <<>>, s |-> <<>>, i |-> 0]
  IN IF 0 \in {m[k] : k \in 1..Len(m)} THEN [none EXCEPT !.ans = "may"]
     ELSE IF has(109) # {} THEN none
     ELSE IF \E c \in {114, 115, 105} : has(c) = {} THEN none
     ELSE IF ~one THEN [none EXCEPT !.ans = "may"]
     ELSE LET r == val(114) s == val(115) i == val(105)
              bad == \/ ~IsPrefixOf(cnonce, r) \/ ~IsNum(i) \/ Num(i) = 0 \/ ~Valid(s)
              odd == \/ ~attrs \/ has(114) # {1} \/ has(115) # {2} \/ has(105) # {3} \/ i[1] = 48 \/ Len(s) = 0 \/ ~Canonical(s)
                     \/ r = cnonce \/ Num(i) > 100000 \/ \E k \in 1..Len(r) : ~NonceByte(r[k])
          IN IF bad THEN none
             ELSE [ans |-> IF odd THEN "may" ELSE "yes", r |-> r, s |-> IF Valid(s) /\ Len(s) > 0 THEN Dec(s) ELSE <<>>, i |-> Num(i)]

(* AuthMessage and the client's final message *)
FinalNoProof(gs2, cb, r) == Attr(99, Enc(gs2 \o cb)) \o <<COMMA>> \o Attr(114, r)
AuthMsg(bare, sfirst, woproof) == bare \o <<COMMA>> \o sfirst \o <<COMMA>> \o woproof
Proof(alg, pw, salt, it, am) == LET ck == ClientKey(alg, pw, salt, it) IN XorSeq(ck, ClientSig(alg, ck, am))
Final(alg, pw, f, cb, sfirst, q) ==
  LET wo == FinalNoProof(f.gs2, cb, q.r)
  IN wo \o <<COMMA>> \o Attr(112, Enc(Proof(alg, pw, q.s, q.i, AuthMsg(f.bare, sfirst, wo))))

(* the server's side (RFC 5802 section 3): it knows StoredKey *)
StoredKey(alg, pw, salt, it) == FastHash(alg, ClientKey(alg, pw, salt, it))
ScramVerify(alg, stored, f, cb, sfirst, r, final) ==
  LET p == SplitAt(final, COMMA)
  IN /\ Len(p) = 3 /\ \A i \in 1..3 : Len(p[i]) >= 2
     /\ IsPrefixOf(<<99, EQ>>, p[1]) /\ IsPrefixOf(<<114, EQ>>, p[2]) /\ IsPrefixOf(<<112, EQ>>, p[3])
     /\ \A i \in {1, 3} : Valid(Drop(p[i], 2)) /\ Canonical(Drop(p[i], 2))
     /\ Dec(Drop(p[1], 2)) = f.gs2 \o cb
     /\ Drop(p[2], 2) = r
     /\ LET pr == Dec(Drop(p[3], 2))
            sig == HMAC(alg, stored, AuthMsg(f.bare, sfirst, p[1] \o <<COMMA>> \o p[2]))
        IN Len(pr) = Len(sig) /\ FastHash(alg, XorSeq(pr, sig)) = stored

(* RFC 4013 (SASLprep), only the characters the recorded passwords use *)
PrepMap(s) ==    \* U+00AD is mapped to nothing, U+00A0 to a space, U+00AA to "a", U+2168 to "IX"
  FoldLeft(LAMBDA a, i :
     IF i < Len(s) /\ s[i] = 194 /\ s[i + 1] \in {173, 160, 170} THEN (IF s[i + 1] = 173 THEN a ELSE IF s[i + 1] = 160 THEN Append(a, 32) ELSE Append(a, 97))
     ELSE IF i > 1 /\ s[i - 1] = 194 /\ s[i] \in {173, 160, 170} THEN a
     ELSE IF i + 2 <= Len(s) /\ s[i] = 226 /\ s[i + 1] = 133 /\ s[i + 2] = 168 THEN a \o <<73, 88>>
     ELSE IF i > 1 /\ i + 1 <= Len(s) /\ s[i - 1] = 226 /\ s[i] = 133 /\ s[i + 1] = 168 THEN a
     ELSE IF i > 2 /\ s[i - 2] = 226 /\ s[i - 1] = 133 /\ s[i] = 168 THEN a
     ELSE Append(a, s[i]),
     <<>>, [i \in 1..Len(s) |-> i])

(* --------------------------------------------------------------- DIGEST-MD5 *)
(* directives: [ok, d: sequence of [k, v, q]] *)
DirStep(a, c) ==
  LET put(v, q) == [a EXCEPT !.d = Append(@, [k |-> a.key, v |-> v, q |-> q]), !.key = <<>>, !.val = <<>>]
      bad == [a EXCEPT !.ph = "bad"]
  IN CASE a.ph = "sep" -> IF c \in LWS \cup {COMMA} THEN a ELSE IF c \in {EQ, QUOTE} THEN bad ELSE [a EXCEPT !.ph = "key", !.key = <<c>>]
       [] a.ph = "key" -> IF c = EQ THEN [a EXCEPT !.ph = "val"] ELSE IF c \in LWS \cup {COMMA, QUOTE} THEN bad ELSE [a EXCEPT !.key = Append(@, c)]
       [] a.ph = "val" -> IF c = QUOTE THEN [a EXCEPT !.ph = "quo"] ELSE IF c \in LWS \cup {COMMA, EQ} THEN bad ELSE [a EXCEPT !.ph = "tok", !.val = <<c>>]
       [] a.ph = "tok" -> IF c = COMMA THEN [put(a.val, 0) EXCEPT !.ph = "sep"] ELSE IF c \in LWS THEN [put(a.val, 0) EXCEPT !.ph = "aft"]
                          ELSE IF c = QUOTE THEN bad ELSE [a EXCEPT !.val = Append(@, c)]
       [] a.ph = "quo" -> IF c = QUOTE THEN [put(a.val, 1) EXCEPT !.ph = "aft"] ELSE IF c = BSL THEN [a EXCEPT !.ph = "esc"] ELSE [a EXCEPT !.val = Append(@, c)]
       [] a.ph = "esc" -> [a EXCEPT !.ph = "quo", !.val = Append(@, c)]
       [] a.ph = "aft" -> IF c = COMMA THEN [a EXCEPT !.ph = "sep"] ELSE IF c \in LWS THEN a ELSE bad
       [] OTHER -> a
Dirs(s) ==
  LET a == FoldLeft(DirStep, [ph |-> "sep", key |-> <<>>, val |-> <<>>, d |-> <<>>], s)
      b == IF a.ph = "tok" THEN [a EXCEPT !.d = Append(@, [k |-> a.key, v |-> a.val, q |-> 0]), !.ph = "sep"] ELSE a
  IN [ok |-> b.ph \in {"sep", "aft"}, d |-> b.d]
Named(D, k) == {i \in 1..Len(D) : D[i].k = k}
Val(D, k) == D[CHOOSE i \in Named(D, k) : TRUE].v

Quoted(s) == <<QUOTE>> \o Cat([i \in 1..Len(s) |-> IF s[i] \in {QUOTE, BSL} THEN <<BSL, s[i]>> ELSE <<s[i]>>]) \o <<QUOTE>>

kUser == <<117, 115, 101, 114, 110, 97, 109, 101>>
kRealm == <<114, 101, 97, 108, 109>>
kNonce == <<110, 111, 110, 99, 101>>
kCnonce == <<99, 110, 111, 110, 99, 101>>
kNc == <<110, 99>>
kQop == <<113, 111, 112>>
kUri == <<100, 105, 103, 101, 115, 116, 45, 117, 114, 105>>
kResp == <<114, 101, 115, 112, 111, 110, 115, 101>>
kCharset == <<99, 104, 97, 114, 115, 101, 116>>
kAlg == <<97, 108, 103, 111, 114, 105, 116, 104, 109>>
vAuth == <<97, 117, 116, 104>>
vMd5sess == <<109, 100, 53, 45, 115, 101, 115, 115>>
vUtf8 == <<117, 116, 102, 45, 56>>
vNc1 == <<48, 48, 48, 48, 48, 48, 48, 49>>
vXmpp == <<120, 109, 112, 112, 47>>
AUTHENTICATE == <<65, 85, 84, 72, 69, 78, 84, 73, 67, 65, 84, 69, 58>>
COLON == <<58>>

H(s) == FastHash("md5", s)
KD(k, s) == H(k \o COLON \o s)
DigestValue(user, realm, pw, nonce, cnonce, nc, qop, uri, a2) ==
  LET A1 == H(user \o COLON \o realm \o COLON \o pw) \o COLON \o nonce \o COLON \o cnonce
  IN Hex(KD(Hex(H(A1)), nonce \o COLON \o nc \o COLON \o cnonce \o COLON \o qop \o COLON \o Hex(H(a2 \o uri))))

QopHas(v) == \E i \in 1..Len(SplitAt(v, COMMA)) :
                LET p == SplitAt(v, COMMA)[i]
                    t == SelectSeq(p, LAMBDA c : c \notin LWS)
                IN t = vAuth

(* a challenge the client has to answer / must not answer / may answer *)
ChalAnswer(ch) ==
  IF ~ch.ok THEN "may"
  ELSE LET D == ch.d IN
       IF Named(D, kNonce) = {} THEN "no"
       ELSE IF Named(D, kQop) # {} /\ Cardinality(Named(D, kQop)) = 1 /\ ~QopHas(Val(D, kQop)) THEN "no"
       ELSE IF /\ Cardinality(Named(D, kNonce)) = 1 /\ Cardinality(Named(D, kQop)) <= 1
               /\ Cardinality(Named(D, kAlg)) = 1 /\ Val(D, kAlg) = vMd5sess
               /\ Cardinality(Named(D, kCharset)) <= 1 /\ (Named(D, kCharset) = {} \/ Val(D, kCharset) = vUtf8)
               /\ Len(Val(D, kNonce)) > 0
            THEN "yes" ELSE "may"

(* the texts that go into the hash for s; "utf" whether UTF-8 was agreed on, other: the other one of user name and password *)
HashForms(s, utf, other) ==
  IF ~Latin(s) THEN {s}
  ELSE IF utf /\ ~Latin(other) THEN {ToLatin(s), s}     \* RFC 2831 may be read either way
  ELSE {ToLatin(s)}

DigestWhy(node, domain, pw, ch, resp) ==
  LET C == ch.d
      R == Dirs(resp)
      D == R.d
      one(k) == Cardinality(Named(D, k)) = 1
      qd(k) == D[CHOOSE i \in Named(D, k) : TRUE].q
      utf == Named(D, kCharset) # {}
      realms == IF Named(C, kRealm) = {} THEN {domain} ELSE {C[i].v : i \in Named(C, kRealm)} \cup (IF \E i \in Named(C, kRealm) : C[i].v = <<>> THEN {domain} ELSE {})
  IN IF ~R.ok THEN "the response has no valid syntax"
     ELSE IF \E k \in {kUser, kRealm, kNonce, kCnonce, kNc, kQop, kUri, kResp} : ~one(k) THEN "directives are missing or repeated"
     ELSE IF \E i \in 1..Len(D) : D[i].k \notin {kUser, kRealm, kNonce, kCnonce, kNc, kQop, kUri, kResp, kCharset} THEN "unknown directive"
     ELSE IF Cardinality(Named(D, kCharset)) > 1 \/ (utf /\ (Named(C, kCharset) = {} \/ Val(D, kCharset) # vUtf8)) THEN "charset the server did not ask for"
     ELSE IF \E k \in {kUser, kRealm, kNonce, kCnonce, kUri} : qd(k) = 0 THEN "unquoted string"
     ELSE IF \E k \in {kNc, kQop, kResp} : qd(k) = 1 THEN "quoted token"
     ELSE IF utf /\ Val(D, kUser) # node THEN "user name differs"
     ELSE IF ~utf /\ Latin(node) /\ Val(D, kUser) # ToLatin(node) THEN "user name differs (ISO 8859-1)"
     ELSE IF Val(D, kRealm) \notin realms THEN "realm differs"
     ELSE IF Val(D, kNonce) # Val(C, kNonce) THEN "nonce differs"
     ELSE IF Val(D, kCnonce) = <<>> THEN "no client nonce"
     ELSE IF Val(D, kNc) # vNc1 THEN "nonce count"
     ELSE IF Val(D, kQop) # vAuth THEN "qop differs"
     ELSE IF Val(D, kUri) # vXmpp \o domain THEN "digest-uri differs"
     ELSE IF ~\E u \in HashForms(node, utf, pw), p \in HashForms(pw, utf, node),
                 rl \in {Val(D, kRealm)} \cup (IF Latin(Val(D, kRealm)) THEN {ToLatin(Val(D, kRealm))} ELSE {}) :
                 Val(D, kResp) = DigestValue(u, rl, p, Val(C, kNonce), Val(D, kCnonce), vNc1, vAuth, vXmpp \o domain, AUTHENTICATE)
          THEN "response value differs"
     ELSE "ok"

(* --------------------------------------------------------------- others *)
PlainMsg(node, pw) == <<0>> \o node \o <<0>> \o pw
Handshake(id, secret) == Hex(FastHash("sha1", id \o secret))
ExternalOk(data, addrs, bare) ==
  \/ data = Enc(bare)
  \/ data = <<EQ>> /\ (addrs = <<>> \/ addrs = <<bare>>)
=============================================================================

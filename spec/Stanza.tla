------------------------------- MODULE Stanza -------------------------------
(* The stanza object store: reference-counted mutable nodes, the public stanza *)
(* API as transitions Exec(S, o), and what rendering must mean: the XML machine *)
(* of Xml.tla reads the rendering back as the effective tree.                   *)
(* Optional values: <<>> is NULL, <<v>> is v.                                   *)
EXTENDS Xml
sClient == <<106,97,98,98,101,114,58,99,108,105,101,110,116>>
sStanzas == <<117,114,110,58,105,101,116,102,58,112,97,114,97,109,115,58,120,109,108,58,110,115,58,120,109,112,112,45,115,116,97,110,122,97,115>>
sStreams == <<117,114,110,58,105,101,116,102,58,112,97,114,97,109,115,58,120,109,108,58,110,115,58,120,109,112,112,45,115,116,114,101,97,109,115>>
sStreamNs == <<104,116,116,112,58,47,47,101,116,104,101,114,120,46,106,97,98,98,101,114,46,111,114,103,47,115,116,114,101,97,109,115>>
sStream == <<115,116,114,101,97,109>>
sId == <<105,100>>
sType == <<116,121,112,101>>
sTo == <<116,111>>
sFrom == <<102,114,111,109>>
sError == <<101,114,114,111,114>>
sText == <<116,101,120,116>>
sBody == <<98,111,100,121>>
sMessage == <<109,101,115,115,97,103,101>>
sIq == <<105,113>>
sPresence == <<112,114,101,115,101,110,99,101>>
sStreamError == sStream \o <<58>> \o sError

(* node: k "unk" | "tag" | "txt", name (or text) d, attributes at (set of       *)
(* <<name, value>>), children ch, parent par, references ref (0 = freed)         *)
Node(k, d, at) == [k |-> k, d |-> d, at |-> at, ch |-> <<>>, par |-> 0, ref |-> 1]
Attr(n, a) == LET M == {x \in n.at : x[1] = a} IN IF M = {} THEN <<>> ELSE <<(CHOOSE x \in M : TRUE)[2]>>
SetAt(at, a, v) == {x \in at : x[1] # a} \cup {<<a, v>>}
Opt(at, a, o) == IF o = <<>> THEN at ELSE SetAt(at, a, o[1])
Slots == 0..40
SInit == [h |-> <<>>, sl |-> [i \in Slots |-> 0]]

RECURSIVE Cat(_, _)
Cat(q, i) == IF i > Len(q) THEN <<>> ELSE q[i] \o Cat(q, i + 1)
TextOf(h, x) == IF h[x].k = "txt" THEN h[x].d
                ELSE Cat([i \in 1..Len(h[x].ch) |-> IF h[h[x].ch[i]].k = "txt" THEN h[h[x].ch[i]].d ELSE <<>>], 1)

(* releasing: the node dies with its last reference and then drops its children *)
RECURSIVE Drop(_, _), DropAll(_, _, _)
Drop(h, x) == IF h[x].ref > 1 THEN [h EXCEPT ![x].ref = @ - 1]
              ELSE DropAll([h EXCEPT ![x].ref = 0], h[x].ch, 1)
DropAll(h, c, i) == IF i > Len(c) THEN h ELSE DropAll(Drop([h EXCEPT ![c[i]].par = 0], c[i]), c, i + 1)

RECURSIVE CopyN(_, _, _), CopyKids(_, _, _, _)
CopyN(h, x, par) ==    \* appends a deep copy of x; its id is Len(h) + 1
  LET me == Len(h) + 1
      n == [Node(h[x].k, h[x].d, h[x].at) EXCEPT !.par = par]
  IN CopyKids(Append(h, n), me, h[x].ch, 1)
CopyKids(h, me, c, i) ==
  IF i > Len(c) THEN h ELSE CopyKids([CopyN(h, c[i], me) EXCEPT ![me].ch = Append(@, Len(h) + 1)], me, c, i + 1)

RECURSIVE ImportN(_, _, _), ImportKids(_, _, _, _)
ImportN(h, t, par) ==  \* appends the nodes of an XML tree
  LET me == Len(h) + 1
      n == IF IsTxt(t) THEN Node("txt", t.txt, {})
           ELSE Node("tag", t.n, IF t.ns.none THEN t.at ELSE {a \in t.at : a[1] # sXmlns} \cup {<<sXmlns, t.ns.v>>})
  IN IF IsTxt(t) THEN Append(h, [n EXCEPT !.par = par])
     ELSE ImportKids(Append(h, [n EXCEPT !.par = par]), me, t.ch, 1)
ImportKids(h, me, c, i) ==
  IF i > Len(c) THEN h ELSE ImportKids([ImportN(h, c[i], me) EXCEPT ![me].ch = Append(@, Len(h) + 1)], me, c, i + 1)

AddChild(h, p, c) == [h EXCEPT ![p].ch = Append(@, c), ![c].par = p]

(* ---------------------------------------------------------- effective tree *)
RECURSIVE Norm(_, _, _)
Norm(q, i, acc) ==     \* adjacent texts are one, empty texts are none
  IF i > Len(q) THEN acc
  ELSE IF IsTxt(q[i]) THEN
         IF q[i].txt = <<>> THEN Norm(q, i + 1, acc)
         ELSE IF acc # <<>> /\ IsTxt(acc[Len(acc)]) THEN Norm(q, i + 1, [acc EXCEPT ![Len(acc)].txt = @ \o q[i].txt])
         ELSE Norm(q, i + 1, Append(acc, q[i]))
  ELSE Norm(q, i + 1, Append(acc, q[i]))
RECURSIVE Eff(_, _, _)
Eff(h, x, env) ==
  LET n == h[x] IN
  IF n.k = "txt" THEN [txt |-> n.d]
  ELSE LET decls == {a \in n.at : IsDecl(a)}
           Bind(p) == LET D == {a \in decls : DeclPrefix(a) = p} IN
                      IF D = {} THEN IF p \in DOMAIN env THEN env[p] ELSE NoNs ELSE LET v == (CHOOSE a \in D : TRUE)[2] IN Ns(v)
           env2 == [p \in DOMAIN env \cup {DeclPrefix(a) : a \in decls} |-> Bind(p)]
           u == Bind(Prefix(n.d))
       IN [n |-> Local(n.d), ns |-> IF u.none \/ u.v = <<>> THEN NoNs ELSE u,
           at |-> {<<Local(a[1]), a[2]>> : a \in n.at \ decls},
           ch |-> Norm([i \in 1..Len(n.ch) |-> Eff(h, n.ch[i], env2)], 1, <<>>)]
Env == (<<>> :> Ns(sClient)) @@ (sStream :> Ns(sStreamNs))

(* characters XML cannot carry are only required not to break the structure *)
San1(b) == [i \in 1..Len(b) |-> IF IsCtl(b[i]) THEN 120 ELSE b[i]]
San2(b) == [i \in 1..Len(b) |-> IF IsCtl(b[i]) \/ b[i] >= 128 THEN 120 ELSE b[i]]
RECURSIVE SanT(_, _)
SanT(t, m) == LET F(b) == IF m = 1 THEN San1(b) ELSE San2(b) IN
              IF IsTxt(t) THEN [txt |-> F(t.txt)]
              ELSE [t EXCEPT !.n = F(@), !.at = {<<F(a[1]), F(a[2])>> : a \in t.at}, !.ch = [i \in 1..Len(t.ch) |-> SanT(t.ch[i], m)]]
(* <stream:stream xmlns='jabber:client' xmlns:stream='http://etherx.jabber.org/streams'> *)
Hdr == <<60>> \o sStream \o <<58>> \o sStream \o <<32>> \o sXmlns \o <<61,39>> \o sClient \o <<39,32>> \o sXmlns \o <<58>> \o sStream \o <<61,39>> \o sStreamNs \o <<39,62>>
HdrState == XmlRun(Hdr)
HdrTState == XmlRun(Hdr \o <<60,116,62>>)
InText(s) == LET z == FeedAll(FeedAll(HdrTState, s, 1), <<60,47,116,62>>, 1) IN z
InStream(s) == FeedAll(HdrState, s, 1)
RenderOk1(h, x, s, m) ==
  LET b == IF m = 1 THEN San1(s) ELSE San2(s)
      z == IF h[x].k = "txt" THEN InText(b) ELSE InStream(b)
      e == SanT(Eff(h, x, Env), m)
  IN IF z.m # "text" THEN z.m
     ELSE IF Len(z.ev) # 2 \/ z.ev[2].k # "stanza" THEN "not one element"
     ELSE IF h[x].k = "txt"
          THEN IF z.ev[2].t.at = {} /\ z.ev[2].t.ch = (IF e.txt = <<>> THEN <<>> ELSE <<e>>) THEN "ok" ELSE "text reads back differently"
     ELSE IF z.ev[2].t = e THEN "ok" ELSE "the tree reads back differently"
RenderOk(h, x, s) == LET a == RenderOk1(h, x, s, 1) IN
                     IF a = "unk" THEN RenderOk1(h, x, s, 2) ELSE IF a = "err" THEN "not well-formed" ELSE a
RECURSIVE HasUnk(_, _)
HasUnk(h, x) == h[x].k = "unk" \/ \E i \in 1..Len(h[x].ch) : HasUnk(h, h[x].ch[i])

(* --------------------------------------------------- observed object dumps *)
RECURSIVE DumpOk(_, _, _)
DumpOk(h, x, t) ==
  LET n == h[x] IN
  IF n.k = "unk" THEN t.k = "u"
  ELSE IF n.k = "txt" THEN t.k = "t" /\ t.txt = n.d
  ELSE /\ t.k = "e"
       /\ t.n = n.d
       /\ t.ns = Attr(n, sXmlns)
       /\ Len(t.at) = Cardinality(n.at)
       /\ {<<t.at[i][1], t.at[i][2]>> : i \in 1..Len(t.at)} = n.at
       /\ Len(t.ch) = Len(n.ch)
       /\ \A i \in 1..Len(n.ch) : DumpOk(h, n.ch[i], t.ch[i])

(* ------------------------------------------------------------- transitions *)
ErrName == <<
 <<98,97,100,45,102,111,114,109,97,116>>, <<98,97,100,45,110,97,109,101,115,112,97,99,101,45,112,114,101,102,105,120>>,
 <<99,111,110,102,108,105,99,116>>, <<99,111,110,110,101,99,116,105,111,110,45,116,105,109,101,111,117,116>>,
 <<104,111,115,116,45,103,111,110,101>>, <<104,111,115,116,45,117,110,107,110,111,119,110>>,
 <<105,109,112,114,111,112,101,114,45,97,100,100,114,101,115,115,105,110,103>>,
 <<105,110,116,101,114,110,97,108,45,115,101,114,118,101,114,45,101,114,114,111,114>>,
 <<105,110,118,97,108,105,100,45,102,114,111,109>>, <<105,110,118,97,108,105,100,45,105,100>>,
 <<105,110,118,97,108,105,100,45,110,97,109,101,115,112,97,99,101>>, <<105,110,118,97,108,105,100,45,120,109,108>>,
 <<110,111,116,45,97,117,116,104,111,114,105,122,101,100>>, <<112,111,108,105,99,121,45,118,105,111,108,97,116,105,111,110>>,
 <<114,101,109,111,116,101,45,99,111,110,110,101,99,116,105,111,110,45,102,97,105,108,101,100>>,
 <<114,101,115,111,117,114,99,101,45,99,111,110,115,116,114,97,105,110,116>>,
 <<114,101,115,116,114,105,99,116,101,100,45,120,109,108>>, <<115,101,101,45,111,116,104,101,114,45,104,111,115,116>>,
 <<115,121,115,116,101,109,45,115,104,117,116,100,111,119,110>>,
 <<117,110,100,101,102,105,110,101,100,45,99,111,110,100,105,116,105,111,110>>,
 <<117,110,115,117,112,112,111,114,116,101,100,45,101,110,99,111,100,105,110,103>>,
 <<117,110,115,117,112,112,111,114,116,101,100,45,115,116,97,110,122,97,45,116,121,112,101>>,
 <<117,110,115,117,112,112,111,114,116,101,100,45,118,101,114,115,105,111,110>>,
 <<110,111,116,45,119,101,108,108,45,102,111,114,109,101,100>> >>

R(S, w) == [s |-> S, why |-> w]
Ok(S) == R(S, "ok")
Chk(S, b, w) == R(S, IF b THEN "ok" ELSE w)
Put(S, h, i, x) == [S EXCEPT !.h = h, !.sl[i] = x]
New(S, i, n) == Put(S, Append(S.h, n), i, Len(S.h) + 1)
(* text child: node + text appended below p *)
AddText(h, p, t) == AddChild(Append(h, Node("txt", t, {})), p, Len(h) + 1)
AddTag(h, p, name, at) == AddChild(Append(h, Node("tag", name, at)), p, Len(h) + 1)
ErrTree(h, p, et, cond, text) ==       \* <error type=et><cond/><text>text</text></error> below p
  LET h1 == AddTag(h, p, sError, {<<sType, et>>})
      e == Len(h) + 1
      h2 == AddTag(h1, e, cond, {<<sXmlns, sStanzas>>})
      h3 == AddTag(h2, e, sText, {<<sXmlns, sStanzas>>})
  IN IF text = <<>> THEN h2 ELSE AddText(h3, Len(h3), text[1])

Kids(h, x) == h[x].ch
FirstKid(h, x, P(_)) == LET I == {i \in 1..Len(h[x].ch) : P(h[x].ch[i])} IN
                        IF I = {} THEN 0 ELSE h[x].ch[CHOOSE i \in I : \A j \in I : i <= j]
ByName(h, x, nm) == FirstKid(h, x, LAMBDA c : h[c].k = "tag" /\ h[c].d = nm)
ByNs(h, x, u) == FirstKid(h, x, LAMBDA c : h[c].k = "tag" /\ Attr(h[c], sXmlns) = <<u>>)
ByBoth(h, x, nm, u) == FirstKid(h, x, LAMBDA c : h[c].k = "tag" /\ h[c].d = nm /\ Attr(h[c], sXmlns) = <<u>>)
(* path: sequence of <<name, optional namespace>>; the first one names x itself *)
RECURSIVE ByPath(_, _, _, _)
ByPath(h, x, p, i) == IF i > Len(p) THEN x
  ELSE LET c == IF p[i][2] = <<>> THEN ByName(h, x, p[i][1]) ELSE ByBoth(h, x, p[i][1], p[i][2][1])
       IN IF c = 0 THEN 0 ELSE ByPath(h, c, p, i + 1)
Path(h, x, p) == IF h[x].d # p[1][1] \/ (p[1][2] # <<>> /\ Attr(h[x], sXmlns) # p[1][2]) THEN 0 ELSE ByPath(h, x, p, 2)
NextSib(h, x) == LET p == h[x].par IN
  IF p = 0 THEN 0 ELSE LET i == CHOOSE i \in 1..Len(h[p].ch) : h[p].ch[i] = x IN IF i < Len(h[p].ch) THEN h[p].ch[i+1] ELSE 0
CStr(b) == LET Z == {i \in 1..Len(b) : b[i] = 0} IN IF Z = {} THEN b ELSE SubSeq(b, 1, (CHOOSE i \in Z : \A j \in Z : i <= j) - 1)

ReplyNode(n, f) == Node(n.k, n.d, SetAt({a \in n.at : a[1] \notin {sTo, sFrom, sXmlns}}, sTo, f))
Uses(o) == IF o.op \in {"new", "parse", "message", "iq", "presence", "error", "forget"} THEN {}
           ELSE IF o.op \in {"clone", "alias", "copy", "find", "reply", "replyerr"} THEN {o.j}
           ELSE IF o.op = "add" THEN {o.i, o.j} ELSE {o.i}

Exec(S, o) ==
  LET h == S.h
      x == S.sl[o.i]
      y == S.sl[o.j]
      n == h[x]
  IN
  IF \E i \in Uses(o) : S.sl[i] = 0 \/ h[S.sl[i]].ref = 0 THEN R(S, "program error")
  ELSE
  CASE o.op = "new" -> R(New(S, o.i, Node("unk", <<>>, {})), IF o.ok = 1 THEN "ok" ELSE "new failed")
    [] o.op = "parse" ->
         LET z == XmlRun(<<60>> \o sStream \o <<62>> \o CStr(o.s) \o <<60,47>> \o sStream \o <<62>>)
             good == z.m = "epilog" /\ \E i \in 1..Len(z.ev) : z.ev[i].k = "stanza"
             t == LET i == CHOOSE i \in 1..Len(z.ev) : z.ev[i].k = "stanza" /\ \A j \in 1..i-1 : z.ev[j].k # "stanza" IN z.ev[i].t
         IN IF z.m = "unk" THEN R(S, "outside")
            ELSE IF ~good THEN R(Put(S, h, o.i, 0), IF o.ok = 0 THEN "ok" ELSE "a string that is no stanza was accepted")
            ELSE R(Put(S, ImportN(h, t, 0), o.i, Len(h) + 1), IF o.ok = 1 THEN "ok" ELSE "a well-formed stanza was refused")
    [] o.op = "clone" -> Ok(Put(S, [h EXCEPT ![y].ref = @ + 1], o.i, y))
    [] o.op = "alias" ->
         LET c == IF o.how = "child" THEN (IF h[y].ch = <<>> THEN 0 ELSE h[y].ch[1]) ELSE IF o.how = "next" THEN NextSib(h, y) ELSE y
         IN R(Put(S, h, o.i, c), IF (o.ok = 1) = (c # 0) THEN "ok" ELSE "child/next differ")
    [] o.op = "forget" -> Ok(Put(S, h, o.i, 0))
    [] o.op = "copy" -> R(Put(S, CopyN(h, y, 0), o.i, Len(h) + 1), IF o.ok = 1 THEN "ok" ELSE "copy failed")
    [] o.op = "release" -> R(Put(S, Drop(h, x), o.i, 0), IF o.freed = (IF n.ref = 1 THEN 1 ELSE 0) THEN "ok" ELSE "release does not report whether the object was freed")
    [] o.op = "name" -> IF n.k = "txt" THEN Chk(S, o.rc < 0, "name accepted on text")
                        ELSE R([S EXCEPT !.h[x].k = "tag", !.h[x].d = o.v], IF o.rc = 0 THEN "ok" ELSE "set_name failed")
    [] o.op = "text" -> IF n.k = "tag" THEN Chk(S, o.rc < 0, "text accepted on tag")
                        ELSE R([S EXCEPT !.h[x].k = "txt", !.h[x].d = CStr(o.v)], IF o.rc = 0 THEN "ok" ELSE "set_text failed")
    [] o.op = "attr" -> IF n.k # "tag" THEN Chk(S, o.rc < 0, "attribute accepted on non-tag")
                        ELSE R([S EXCEPT !.h[x].at = SetAt(@, o.k, o.v)], IF o.rc = 0 THEN "ok" ELSE "set_attribute failed")
    [] o.op = "delattr" -> IF n.k # "tag" \/ Attr(n, o.k) = <<>> THEN Chk(S, o.rc < 0, "deleted an absent attribute")
                        ELSE R([S EXCEPT !.h[x].at = {a \in @ : a[1] # o.k}], IF o.rc = 0 THEN "ok" ELSE "del_attribute failed")
    [] o.op = "add" -> LET h1 == AddChild(h, x, y)
                           h2 == IF o.mode = 1 THEN [h1 EXCEPT ![y].ref = @ + 1] ELSE h1
                       IN R(IF o.mode = 0 THEN Put(S, h2, o.j, 0) ELSE [S EXCEPT !.h = h2], IF o.rc = 0 THEN "ok" ELSE "add_child failed")
    [] o.op = "info" -> Chk(S, /\ o.istext = (IF n.k = "txt" THEN 1 ELSE 0)
                               /\ o.istag = (IF n.k = "tag" THEN 1 ELSE 0)
                               /\ o.name = (IF n.k = "tag" THEN <<n.d>> ELSE <<>>)
                               /\ o.ns = Attr(n, sXmlns) /\ o.type = Attr(n, sType) /\ o.id = Attr(n, sId)
                               /\ o.to = Attr(n, sTo) /\ o.from = Attr(n, sFrom)
                               /\ o.nattr = Cardinality(n.at), "accessors disagree with the object")
    [] o.op = "get" -> Chk(S, o.v = Attr(n, o.k), "attribute value differs")
    [] o.op = "gettext" -> LET t == TextOf(h, x) IN
         Chk(S, /\ o.v = (IF n.k = "txt" THEN <<n.d>> ELSE IF t = <<>> THEN <<>> ELSE <<t>>)
                /\ o.p = (IF n.k = "txt" THEN <<n.d>> ELSE <<>>), "text differs")
    [] o.op = "getbody" -> LET b == IF n.k = "tag" THEN ByName(h, x, sBody) ELSE 0
                               t == IF b = 0 \/ n.d # sMessage THEN <<>> ELSE TextOf(h, b)
         IN Chk(S, o.v = (IF t = <<>> THEN <<>> ELSE <<t>>), "body differs")
    [] o.op = "find" -> LET c == IF o.how = "name" THEN ByName(h, y, o.a) ELSE IF o.how = "ns" THEN ByNs(h, y, o.a)
                                 ELSE IF o.how = "both" THEN ByBoth(h, y, o.a, o.b) ELSE Path(h, y, o.path)
                        IN R(Put(S, h, o.i, c), IF (o.ok = 1) # (c # 0) THEN "found differs"
                                                ELSE IF c # 0 /\ ~DumpOk(h, c, o.tree) THEN "another element was found" ELSE "ok")
    [] o.op = "reply" -> LET f == Attr(h[y], sFrom) IN
         IF f = <<>> THEN R(Put(S, h, o.i, 0), IF o.ok = 0 THEN "ok" ELSE "reply to nobody")
         ELSE R(New(S, o.i, ReplyNode(h[y], f[1])), IF o.ok = 1 THEN "ok" ELSE "no reply")
    [] o.op = "replyerr" -> LET f == Attr(h[y], sFrom)
                                t == Attr(h[y], sTo)
                                r == [ReplyNode(h[y], f[1]) EXCEPT !.at = Opt(SetAt(@, sType, sError), sFrom, t)]
                                h1 == Append(h, r)
         IN IF f = <<>> \/ o.et = <<>> \/ o.cond = <<>> THEN R(Put(S, h, o.i, 0), IF o.ok = 0 THEN "ok" ELSE "error reply to nobody")
            ELSE R(Put(S, ErrTree(h1, Len(h1), o.et[1], o.cond[1], o.text), o.i, Len(h1)), IF o.ok = 1 THEN "ok" ELSE "no error reply")
    [] o.op = "message" -> Ok(New(S, o.i, Node("tag", sMessage, Opt(Opt(Opt({}, sType, o.type), sTo, o.to), sId, o.id))))
    [] o.op = "iq" -> Ok(New(S, o.i, Node("tag", sIq, Opt(Opt({}, sType, o.type), sId, o.id))))
    [] o.op = "presence" -> Ok(New(S, o.i, Node("tag", sPresence, {})))
    [] o.op = "error" ->
         LET h1 == Append(h, Node("tag", sStreamError, {}))
             me == Len(h1)
             h2 == AddTag(h1, me, ErrName[o.code + 1], {<<sXmlns, sStreams>>})
             h3 == AddTag(h2, me, sText, {<<sXmlns, sStreams>>})
         IN Ok(Put(S, IF o.text = <<>> THEN h2 ELSE AddText(h3, Len(h3), o.text[1]), o.i, me))
    [] o.op = "setbody" ->
         IF n.k # "tag" \/ n.d # sMessage \/ ByName(h, x, sBody) # 0 THEN Chk(S, o.rc < 0, "body accepted")
         ELSE LET h1 == AddTag(h, x, sBody, {}) IN
              R([S EXCEPT !.h = AddText(h1, Len(h1), o.v)], IF o.rc = 0 THEN "ok" ELSE "body refused")
    [] o.op = "render" ->
         IF HasUnk(h, x) THEN Chk(S, o.rc < 0, "rendered an incomplete stanza")
         ELSE IF o.rc # 0 THEN R(S, "rendering failed")
         ELSE IF o.len # Len(o.s) THEN R(S, "reported length differs from the string")
         ELSE R(S, RenderOk(h, x, o.s))
    [] o.op = "tree" -> Chk(S, DumpOk(h, x, o.tree), "the object differs")
    [] OTHER -> R(S, "program error")

RECURSIVE RunOps(_, _, _)
RunOps(S, ops, i) ==     \* <<index, reason>> of the first bad step, or <<0, "ok">>
  IF i > Len(ops) THEN [s |-> S, at |-> 0, why |-> "ok"]
  ELSE LET r == Exec(S, ops[i]) IN IF r.why = "outside" THEN [s |-> S, at |-> 0, why |-> "ok"]   \* nothing is claimed from here on
       ELSE IF r.why # "ok" THEN [s |-> S, at |-> i, why |-> r.why] ELSE RunOps(r.s, ops, i + 1)
AliveCount(S) == Cardinality({x \in 1..Len(S.h) : S.h[x].ref > 0})
=============================================================================

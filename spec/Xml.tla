-------------------------------- MODULE Xml ---------------------------------
(* Incremental namespace-aware XML machine: one transition per byte.          *)
(* Feed(s, c) is the transition; a chunk is a sequence of transitions, so the  *)
(* result cannot depend on the chunking.  Events: stream start, every complete *)
(* child of the root as a tree, stream end, error.  Mode "unk" = the input     *)
(* left the described language (DOCTYPE, exotic names or encodings): nothing   *)
(* is claimed about it.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LT == 60
GT == 62
AMP == 38
SEMI == 59
QUOT == 34
APOS == 39
SL == 47
EQ == 61
BANG == 33
QM == 63
DASH == 45
COLON == 58
LB == 91
RB == 93
HASH == 35
WS == {32, 9, 10, 13}
NSeq == 1..0
NoNs == [none |-> TRUE, v |-> <<>>]
Ns(u) == [none |-> FALSE, v |-> u]
sXml == <<120, 109, 108>>
sXmlns == <<120, 109, 108, 110, 115>>
(* http://www.w3.org/XML/1998/namespace *)
uXml == <<104,116,116,112,58,47,47,119,119,119,46,119,51,46,111,114,103,47,88,77,76,47,49,57,57,56,47,110,97,109,101,115,112,97,99,101>>
uXmlns == <<104,116,116,112,58,47,47,119,119,119,46,119,51,46,111,114,103,47,50,48,48,48,47,120,109,108,110,115,47>>
IsAlpha(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
IsDigit(c) == c >= 48 /\ c <= 57
NameStart(c) == IsAlpha(c) \/ c = 95
NameChar(c) == NameStart(c) \/ IsDigit(c) \/ c = 45 \/ c = 46
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87
             ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE 99

(* m mode, dep open elements, q their qualified names, ns namespace bindings     *)
(* <<prefix, uri, depth>>, stk trees under construction (from depth 2), txt      *)
(* pending text, tok token buffer, el tag name, an attribute name, av attribute  *)
(* value, ats attributes of the tag, qc quote, ret mode to return to, cr last    *)
(* byte was CR, rb run of ']' in text, u pending UTF-8 (need, lo, hi, lead),     *)
(* pos byte count, ev events                                                     *)
XInit == [m |-> "start", q |-> <<>>, ns |-> <<>>, stk |-> <<>>, txt |-> <<>>, tok |-> <<>>, el |-> <<>>,
          an |-> <<>>, av |-> <<>>, ats |-> <<>>, qc |-> 0, ret |-> "", cr |-> FALSE, rb |-> 0,
          u |-> <<0, 0, 0, 0>>, ev |-> <<>>]
Err(s) == [s EXCEPT !.m = "err", !.ev = Append(@, [k |-> "error"])]
Unk(s) == [s EXCEPT !.m = "unk"]

RECURSIVE LookupNs(_, _, _)
LookupNs(b, p, i) == IF i = 0 THEN NoNs ELSE IF b[i][1] = p THEN Ns(b[i][2]) ELSE LookupNs(b, p, i - 1)
NsOf(b, p) == IF p = sXml THEN Ns(uXml) ELSE LookupNs(b, p, Len(b))
ColonPos(n) == LET P == {i \in 1..Len(n) : n[i] = COLON} IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j
Prefix(n) == LET k == ColonPos(n) IN IF k = 0 THEN <<>> ELSE SubSeq(n, 1, k - 1)
Local(n) == LET k == ColonPos(n) IN SubSeq(n, k + 1, Len(n))
GoodQName(n) == LET k == ColonPos(n) IN
                /\ n # <<>>
                /\ k = 0 \/ (k > 1 /\ k < Len(n) /\ \A j \in k + 1 .. Len(n) : n[j] # COLON
                             /\ (NameStart(n[k+1]) \/ n[k+1] >= 128))

IsDecl(a) == a[1] = sXmlns \/ Prefix(a[1]) = sXmlns
DeclPrefix(a) == IF a[1] = sXmlns THEN <<>> ELSE Local(a[1])
GoodDecl(a) ==
  LET p == DeclPrefix(a)  u == a[2] IN
  IF a[1] = sXmlns THEN u # uXml /\ u # uXmlns
  ELSE /\ p # sXmlns
       /\ u # <<>>
       /\ (p = sXml) = (u = uXml)
       /\ u # uXmlns

FlushTxt(s) ==   \* pending text becomes a text node of the innermost tree
  IF s.txt = <<>> THEN s
  ELSE IF s.stk = <<>> THEN [s EXCEPT !.txt = <<>>]
  ELSE [s EXCEPT !.txt = <<>>, !.stk[Len(s.stk)].ch = Append(@, [txt |-> s.txt])]

Close(s) ==      \* the innermost element ends
  LET t0 == FlushTxt(s)
      d == Len(t0.q)
      t == [t0 EXCEPT !.q = SubSeq(@, 1, d - 1), !.ns = SelectSeq(@, LAMBDA b : b[3] < d)]
  IN IF d = 1 THEN [t EXCEPT !.m = "epilog", !.ev = Append(@, [k |-> "end"])]
     ELSE IF d = 2 THEN [t EXCEPT !.m = "text", !.stk = <<>>, !.ev = Append(@, [k |-> "stanza", t |-> t.stk[1]])]
     ELSE LET n == Len(t.stk) IN
          [t EXCEPT !.m = "text", !.stk = [SubSeq(@, 1, n - 1) EXCEPT ![n-1].ch = Append(@, t.stk[n])]]

Open(s, empty) ==  \* start tag complete
  LET d == Len(s.q) + 1
      decls == SelectSeq(s.ats, IsDecl)
      norm == SelectSeq(s.ats, LAMBDA a : ~IsDecl(a))
      ns == s.ns \o [i \in 1..Len(decls) |-> <<DeclPrefix(decls[i]), decls[i][2], d>>]
      eu == NsOf(ns, Prefix(s.el))
      en == IF eu.none \/ eu.v = <<>> THEN NoNs ELSE eu
      A(i) == norm[i]
      au(i) == IF Prefix(A(i)[1]) = <<>> THEN NoNs ELSE NsOf(ns, Prefix(A(i)[1]))
      bad == \/ \E i \in 1..Len(decls) : ~GoodDecl(decls[i])
             \/ Prefix(s.el) # <<>> /\ eu.none
             \/ Prefix(s.el) = sXmlns
             \/ \E i \in 1..Len(norm) : Prefix(A(i)[1]) # <<>> /\ au(i).none
             \/ \E i, j \in 1..Len(s.ats) : i < j /\ s.ats[i][1] = s.ats[j][1]
             \/ \E i, j \in 1..Len(norm) : i < j /\ ~au(i).none /\ au(i) = au(j) /\ Local(A(i)[1]) = Local(A(j)[1])
      at == {<<Local(A(i)[1]), A(i)[2]>> : i \in 1..Len(norm)}
      node == [n |-> Local(s.el), ns |-> en, at |-> at, ch |-> <<>>]
      t == FlushTxt(s)
      o == [t EXCEPT !.m = "text", !.q = Append(@, s.el), !.ns = ns, !.el = <<>>, !.ats = <<>>, !.rb = 0,
                     !.stk = IF d = 1 THEN @ ELSE Append(@, node),
                     !.ev = IF d = 1 THEN Append(@, [k |-> "start", n |-> node.n, ns |-> en, at |-> at]) ELSE @]
  IN IF bad THEN Err(s) ELSE IF empty THEN Close(o) ELSE o

(* text bytes at depth >= 2 are collected *)
Txt(s, bs) == IF Len(s.q) >= 2 THEN [s EXCEPT !.txt = @ \o bs] ELSE s

Utf8Of(cp) == IF cp < 128 THEN <<cp>>
  ELSE IF cp < 2048 THEN <<192 + (cp \div 64), 128 + (cp % 64)>>
  ELSE IF cp < 65536 THEN <<224 + (cp \div 4096), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
  ELSE <<240 + (cp \div 262144), 128 + ((cp \div 4096) % 64), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
IsChar(cp) == cp \in {9, 10, 13} \/ (cp >= 32 /\ cp <= 55295) \/ (cp >= 57344 /\ cp <= 65533) \/ (cp >= 65536 /\ cp <= 1114111)
RECURSIVE Num(_, _, _, _)
Num(t, i, base, acc) == IF i > Len(t) THEN acc ELSE Num(t, i + 1, base, IF acc > 1114111 THEN 1114112 ELSE acc * base + HexVal(t[i]))
(* value of an entity token (without & and ;): <<ok, bytes>> *)
Entity(t) ==
  IF t = <<108, 116>> THEN <<TRUE, <<LT>>>>
  ELSE IF t = <<103, 116>> THEN <<TRUE, <<GT>>>>
  ELSE IF t = <<97, 109, 112>> THEN <<TRUE, <<AMP>>>>
  ELSE IF t = <<113, 117, 111, 116>> THEN <<TRUE, <<QUOT>>>>
  ELSE IF t = <<97, 112, 111, 115>> THEN <<TRUE, <<APOS>>>>
  ELSE IF Len(t) >= 2 /\ t[1] = HASH
    THEN LET hex == t[2] = 120
             ds == IF hex THEN SubSeq(t, 3, Len(t)) ELSE SubSeq(t, 2, Len(t))
             cp == IF ds = <<>> THEN 0 ELSE Num(ds, 1, IF hex THEN 16 ELSE 10, 0)
         IN IF ds # <<>> /\ IsChar(cp) THEN <<TRUE, Utf8Of(cp)>> ELSE <<FALSE, <<>>>>
  ELSE <<FALSE, <<>>>>

(* UTF-8: expected range of the next continuation bytes after lead byte c *)
Lead(c) == IF c >= 194 /\ c <= 223 THEN <<1, 128, 191, c>>
           ELSE IF c = 224 THEN <<2, 160, 191, c>>
           ELSE IF c = 237 THEN <<2, 128, 159, c>>
           ELSE IF c >= 225 /\ c <= 239 THEN <<2, 128, 191, c>>
           ELSE IF c = 240 THEN <<3, 144, 191, c>>
           ELSE IF c >= 241 /\ c <= 243 THEN <<3, 128, 191, c>>
           ELSE IF c = 244 THEN <<3, 128, 143, c>> ELSE <<0, 0, 0, 0>>
Utf(s, c) ==     \* returns the state with .u advanced, or unk
  IF s.u[1] > 0
  THEN IF c < s.u[2] \/ c > s.u[3] THEN Unk(s)
       ELSE IF s.u[4] = 239 /\ s.u[1] = 2 /\ c = 191 THEN [s EXCEPT !.u = <<1, 128, 189, 0>>]
       ELSE [s EXCEPT !.u = <<s.u[1] - 1, 128, 191, 0>>]
  ELSE LET l == Lead(c) IN IF l[1] = 0 THEN Unk(s) ELSE [s EXCEPT !.u = l]
(* byte of character data: s' plus normalisation of line ends *)
IsCtl(c) == c < 32 /\ c \notin {9, 10, 13}

(* high bytes in names: only U+00C0..U+02FF letters are described *)
NameHigh(s, c) ==
  IF s.u[1] = 1 THEN IF c >= 128 /\ c <= 191 /\ ~(s.u[4] = 195 /\ c \in {151, 183}) THEN [s EXCEPT !.u = <<0, 0, 0, 0>>] ELSE Unk(s)
  ELSE IF c >= 195 /\ c <= 203 THEN [s EXCEPT !.u = <<1, 128, 191, c>>] ELSE Unk(s)

PushTxt(s, c) ==   \* one byte of content (text or CDATA) with CRLF normalisation
  IF c = 10 /\ s.cr THEN [s EXCEPT !.cr = FALSE]
  ELSE [Txt(s, IF c = 13 THEN <<10>> ELSE <<c>>) EXCEPT !.cr = (c = 13)]
PushVal(s, c) ==
  IF c = 10 /\ s.cr THEN [s EXCEPT !.cr = FALSE]
  ELSE [s EXCEPT !.av = Append(@, IF c \in {9, 10, 13} THEN 32 ELSE c), !.cr = (c = 13)]

GoodXmlDecl(t) ==    \* bytes after "<?xml" up to "?>"
  LET str == t IN
  str \in { <<32,118,101,114,115,105,111,110,61,39,49,46,48,39>>, <<32,118,101,114,115,105,111,110,61,34,49,46,48,34>> }

AfterTag(s, c) ==    \* inside a start tag, between attributes (needs: whitespace seen)
  IF c \in WS THEN [s EXCEPT !.m = "sws"]
  ELSE IF c = SL THEN [s EXCEPT !.m = "empty"]
  ELSE IF c = GT THEN Open(s, FALSE)
  ELSE Err(s)

Feed0(s, c) ==
  CASE s.m = "text" ->
        IF s.u[1] > 0 \/ c >= 128 THEN LET t == Utf(s, c) IN IF t.m = "unk" THEN t ELSE [PushTxt(t, c) EXCEPT !.rb = 0]
        ELSE IF c = LT THEN [s EXCEPT !.m = "lt", !.cr = FALSE, !.rb = 0]
        ELSE IF c = AMP THEN [s EXCEPT !.m = "ent", !.ret = "text", !.tok = <<>>, !.cr = FALSE, !.rb = 0]
        ELSE IF IsCtl(c) THEN Err(s)
        ELSE IF c = GT /\ s.rb >= 2 THEN Err(s)
        ELSE [PushTxt(s, c) EXCEPT !.rb = IF c = RB THEN @ + 1 ELSE 0]
    [] s.m = "start" ->       \* very first byte
        IF c = LT THEN [s EXCEPT !.m = "lt0"]
        ELSE IF c \in WS THEN [s EXCEPT !.m = "prolog"]
        ELSE IF c >= 128 THEN Unk(s) ELSE Err(s)
    [] s.m \in {"prolog", "epilog"} ->
        IF c = LT THEN [s EXCEPT !.m = IF s.m = "prolog" THEN "ltp" ELSE "lte"]
        ELSE IF c \in WS THEN s ELSE IF c >= 128 THEN Unk(s) ELSE Err(s)
    [] s.m \in {"lt", "lt0", "ltp", "lte"} ->
        IF c = BANG THEN [s EXCEPT !.m = "bang", !.tok = <<>>, !.ret = s.m]
        ELSE IF c = QM THEN [s EXCEPT !.m = "pit", !.tok = <<>>, !.ret = s.m]
        ELSE IF s.m = "lte" THEN (IF c >= 128 THEN Unk(s) ELSE Err(s))
        ELSE IF c = SL THEN (IF s.m = "lt" THEN [s EXCEPT !.m = "etag0", !.el = <<>>] ELSE Err(s))
        ELSE IF NameStart(c) THEN [s EXCEPT !.m = "stag", !.el = <<c>>, !.ats = <<>>]
        ELSE IF c >= 128 THEN LET t == NameHigh(s, c) IN IF t.m = "unk" THEN t ELSE [t EXCEPT !.m = "stag", !.el = <<c>>, !.ats = <<>>]
        ELSE Err(s)
    [] s.m = "stag" ->
        IF s.u[1] > 0 \/ c >= 128 THEN LET t == NameHigh(s, c) IN IF t.m = "unk" THEN t ELSE [t EXCEPT !.el = Append(@, c)]
        ELSE IF NameChar(c) \/ c = COLON THEN
             LET t == [s EXCEPT !.el = Append(@, c)] IN
             IF (c = COLON /\ ColonPos(s.el) > 0) \/ (s.el[Len(s.el)] = COLON /\ ~NameStart(c)) THEN Err(s) ELSE t
        ELSE IF ~GoodQName(s.el) THEN Err(s)
        ELSE AfterTag(s, c)
    [] s.m = "sws" ->
        IF c \in WS THEN s
        ELSE IF NameStart(c) THEN [s EXCEPT !.m = "aname", !.an = <<c>>]
        ELSE IF c >= 128 THEN LET t == NameHigh(s, c) IN IF t.m = "unk" THEN t ELSE [t EXCEPT !.m = "aname", !.an = <<c>>]
        ELSE IF c = SL THEN [s EXCEPT !.m = "empty"]
        ELSE IF c = GT THEN Open(s, FALSE) ELSE Err(s)
    [] s.m = "aname" ->
        IF s.u[1] > 0 \/ c >= 128 THEN LET t == NameHigh(s, c) IN IF t.m = "unk" THEN t ELSE [t EXCEPT !.an = Append(@, c)]
        ELSE IF NameChar(c) \/ c = COLON THEN
             IF (c = COLON /\ ColonPos(s.an) > 0) \/ (s.an[Len(s.an)] = COLON /\ ~NameStart(c)) THEN Err(s)
             ELSE [s EXCEPT !.an = Append(@, c)]
        ELSE IF ~GoodQName(s.an) THEN Err(s)
        ELSE IF c = EQ THEN [s EXCEPT !.m = "aq"]
        ELSE IF c \in WS THEN [s EXCEPT !.m = "aeq"] ELSE Err(s)
    [] s.m = "aeq" -> IF c \in WS THEN s ELSE IF c = EQ THEN [s EXCEPT !.m = "aq"] ELSE Err(s)
    [] s.m = "aq" -> IF c \in WS THEN s
                     ELSE IF c \in {QUOT, APOS} THEN [s EXCEPT !.m = "aval", !.qc = c, !.av = <<>>, !.cr = FALSE]
                     ELSE Err(s)
    [] s.m = "aval" ->
        IF s.u[1] > 0 \/ c >= 128 THEN LET t == Utf(s, c) IN IF t.m = "unk" THEN t ELSE PushVal(t, c)
        ELSE IF c = s.qc THEN [s EXCEPT !.m = "aaft", !.ats = Append(@, <<s.an, s.av>>), !.cr = FALSE]
        ELSE IF c = LT THEN Err(s)
        ELSE IF c = AMP THEN [s EXCEPT !.m = "ent", !.ret = "aval", !.tok = <<>>, !.cr = FALSE]
        ELSE IF IsCtl(c) THEN Err(s)
        ELSE PushVal(s, c)
    [] s.m = "aaft" -> AfterTag(s, c)
    [] s.m = "empty" -> IF c = GT THEN Open(s, TRUE) ELSE Err(s)
    [] s.m = "etag0" ->
        IF NameStart(c) THEN [s EXCEPT !.m = "etag", !.el = <<c>>]
        ELSE IF c >= 128 THEN LET t == NameHigh(s, c) IN IF t.m = "unk" THEN t ELSE [t EXCEPT !.m = "etag", !.el = <<c>>]
        ELSE Err(s)
    [] s.m = "etag" ->
        IF s.u[1] > 0 \/ c >= 128 THEN LET t == NameHigh(s, c) IN IF t.m = "unk" THEN t ELSE [t EXCEPT !.el = Append(@, c)]
        ELSE IF NameChar(c) \/ c = COLON THEN [s EXCEPT !.el = Append(@, c)]
        ELSE IF c \in WS THEN [s EXCEPT !.m = "etws"]
        ELSE IF c = GT THEN (IF s.el = s.q[Len(s.q)] THEN Close([s EXCEPT !.el = <<>>]) ELSE Err(s))
        ELSE Err(s)
    [] s.m = "etws" -> IF c \in WS THEN s
        ELSE IF c = GT THEN (IF s.el = s.q[Len(s.q)] THEN Close([s EXCEPT !.el = <<>>]) ELSE Err(s)) ELSE Err(s)
    [] s.m = "ent" ->
        IF c = SEMI THEN
          LET e == Entity(s.tok) IN
          IF ~e[1] THEN Err(s)
          ELSE IF s.ret = "text" THEN [Txt(s, e[2]) EXCEPT !.m = "text"]
          ELSE [s EXCEPT !.m = "aval", !.av = @ \o e[2]]
        ELSE IF (s.tok = <<>> /\ (c = HASH \/ NameStart(c)))
                \/ (s.tok # <<>> /\ s.tok[1] # HASH /\ NameChar(c))
                \/ (s.tok = <<HASH>> /\ (c = 120 \/ IsDigit(c)))
                \/ (Len(s.tok) >= 2 /\ s.tok[1] = HASH /\ IF s.tok[2] = 120 THEN HexVal(c) < 16 ELSE IsDigit(c))
             THEN (IF Len(s.tok) > 40 THEN Unk(s) ELSE [s EXCEPT !.tok = Append(@, c)])
        ELSE IF c >= 128 THEN Unk(s) ELSE Err(s)
    [] s.m = "bang" ->
        LET t == Append(s.tok, c) IN
        IF t = <<DASH>> THEN [s EXCEPT !.tok = t]
        ELSE IF t = <<DASH, DASH>> THEN [s EXCEPT !.m = "com"]
        ELSE IF s.ret = "lt" /\ t = SubSeq(<<LB,67,68,65,84,65,LB>>, 1, Len(t))
          THEN IF Len(t) = 7 THEN [s EXCEPT !.m = "cd"] ELSE [s EXCEPT !.tok = t]
        ELSE IF s.ret \in {"lt0", "ltp"} /\ t = <<68>> THEN Unk(s)     \* DOCTYPE
        ELSE IF c >= 128 THEN Unk(s) ELSE Err(s)
    [] s.m \in {"com", "com1", "com2"} ->
        IF s.u[1] > 0 \/ c >= 128 THEN (IF s.m = "com2" THEN Err(s) ELSE LET t == Utf(s, c) IN IF t.m = "unk" THEN t ELSE [t EXCEPT !.m = "com"])
        ELSE IF s.m = "com2" THEN (IF c = GT THEN [s EXCEPT !.m = "back"] ELSE Err(s))
        ELSE IF IsCtl(c) THEN Err(s)
        ELSE [s EXCEPT !.m = IF c = DASH THEN (IF s.m = "com1" THEN "com2" ELSE "com1") ELSE "com"]
    [] s.m \in {"cd", "cd1", "cd2"} ->
        IF s.u[1] > 0 \/ c >= 128
        THEN LET t == Utf(s, c)
                 pre == IF s.m = "cd1" THEN <<RB>> ELSE IF s.m = "cd2" THEN <<RB, RB>> ELSE <<>>
             IN IF t.m = "unk" THEN t ELSE [PushTxt(Txt([t EXCEPT !.cr = IF pre = <<>> THEN @ ELSE FALSE], pre), c) EXCEPT !.m = "cd"]
        ELSE IF IsCtl(c) THEN Err(s)
        ELSE (CASE s.m = "cd" -> IF c = RB THEN [s EXCEPT !.m = "cd1", !.cr = FALSE] ELSE PushTxt(s, c)
               [] s.m = "cd1" -> IF c = RB THEN [s EXCEPT !.m = "cd2"] ELSE [PushTxt(Txt(s, <<RB>>), c) EXCEPT !.m = "cd"]
               [] s.m = "cd2" -> IF c = GT THEN [s EXCEPT !.m = "text", !.cr = FALSE]
                                 ELSE IF c = RB THEN Txt(s, <<RB>>)
                                 ELSE [PushTxt(Txt(s, <<RB, RB>>), c) EXCEPT !.m = "cd"])
    [] s.m = "pit" ->       \* PI target
        IF NameStart(c) \/ (s.tok # <<>> /\ NameChar(c)) THEN [s EXCEPT !.tok = Append(@, c)]
        ELSE IF s.tok = <<>> THEN (IF c >= 128 THEN Unk(s) ELSE Err(s))
        ELSE IF c \in WS \/ c = QM THEN
             LET low(x) == IF x >= 65 /\ x <= 90 THEN x + 32 ELSE x
                 t == [i \in 1..Len(s.tok) |-> low(s.tok[i])]
             IN IF t = sXml THEN (IF s.tok = sXml /\ s.ret = "lt0" THEN [s EXCEPT !.m = IF c = QM THEN "unk" ELSE "decl", !.tok = <<c>>] ELSE Err(s))
                ELSE [s EXCEPT !.m = IF c = QM THEN "pi1" ELSE "pi", !.tok = IF c = QM THEN <<0>> ELSE <<>>]
        ELSE IF c >= 128 \/ c = COLON THEN Unk(s) ELSE Err(s)
    [] s.m = "pi" ->
        IF s.u[1] > 0 \/ c >= 128 THEN Utf(s, c)
        ELSE IF IsCtl(c) THEN Err(s)
        ELSE IF c = QM THEN [s EXCEPT !.m = "pi1", !.tok = <<>>] ELSE s
    [] s.m = "pi1" ->       \* tok = <<0>>: '?' directly after the target must end it
        IF c = GT THEN [s EXCEPT !.m = "back"]
        ELSE IF s.tok = <<0>> THEN (IF c >= 128 THEN Unk(s) ELSE Err(s))
        ELSE IF c = QM THEN s
        ELSE IF c >= 128 THEN LET t == Utf(s, c) IN IF t.m = "unk" THEN t ELSE [t EXCEPT !.m = "pi"]
        ELSE IF IsCtl(c) THEN Err(s) ELSE [s EXCEPT !.m = "pi"]
    [] s.m = "decl" ->
        IF c = GT /\ s.tok[Len(s.tok)] = QM
        THEN (IF GoodXmlDecl(SubSeq(s.tok, 1, Len(s.tok) - 1)) THEN [s EXCEPT !.m = "prolog", !.tok = <<>>] ELSE Unk(s))
        ELSE IF Len(s.tok) > 60 THEN Unk(s) ELSE [s EXCEPT !.tok = Append(@, c)]
    [] OTHER -> Assert(FALSE, <<"mode", s.m, c>>)
Feed(s, c) ==
  IF s.m \in {"err", "unk"} THEN s
  ELSE LET t == Feed0(s, c) IN
       IF t.m = "back"        \* end of comment or PI: back to where it started
       THEN [t EXCEPT !.tok = <<>>, !.m = CASE t.ret = "lt" -> "text" [] t.ret = "lte" -> "epilog" [] OTHER -> "prolog"]
       ELSE t
RECURSIVE FeedAll(_, _, _)
FeedAll(s, b, i) == IF i > Len(b) THEN s ELSE FeedAll(Feed(s, b[i]), b, i + 1)
XmlRun(b) == FeedAll(XInit, b, 1)

(* ------------------------------------------------ comparing with the library *)
(* observed element: [n, ns, at: seq of <<name, value>>, ch]; the library drops   *)
(* attribute namespaces, so of attributes with equal local names one survives     *)
AtMatch(e, o, ns) ==
  LET want == IF ns.none THEN e ELSE {a \in e : a[1] # sXmlns} \cup {<<sXmlns, ns.v>>}
      got == {<<o[i][1], o[i][2]>> : i \in 1..Len(o)}
  IN /\ got \subseteq want
     /\ {a[1] : a \in got} = {a[1] : a \in want}
     /\ Cardinality(got) = Len(o)
     /\ Cardinality({a[1] : a \in got}) = Len(o)
IsTxt(t) == "txt" \in DOMAIN t
RECURSIVE TreeMatch(_, _)
TreeMatch(e, o) ==
  IF IsTxt(e) \/ IsTxt(o) THEN IsTxt(e) /\ IsTxt(o) /\ e.txt = o.txt
  ELSE /\ e.n = o.n
       /\ e.ns = o.ns
       /\ AtMatch(e.at, o.at, e.ns)
       /\ Len(e.ch) = Len(o.ch)
       /\ \A i \in 1..Len(e.ch) : TreeMatch(e.ch[i], o.ch[i])
EvMatch(e, o) ==
  /\ e.k = o.k
  /\ CASE e.k = "start" -> e.n = o.n /\ e.at = {<<o.at[i][1], o.at[i][2]>> : i \in 1..Len(o.at)}
       [] e.k = "stanza" -> TreeMatch(e.t, o.t)
       [] OTHER -> TRUE
EvsMatch(E, O) == Len(E) = Len(O) /\ \A i \in 1..Len(E) : EvMatch(E[i], O[i])
=============================================================================

---------------------------- MODULE ModelStanza ----------------------------
(* All programs of at most MaxOps stanza operations over a small alphabet.     *)
(* A canonical renderer is part of the model: what it prints must read back    *)
(* as the effective tree (the obligation the library's renderer has), object    *)
(* graphs stay trees, and reference counts are exact.                           *)
EXTENDS Stanza
CONSTANT MaxOps
VARIABLES S, own, n
vars == <<S, own, n>>
Names == {<<97>>, sMessage}
Vals == {<<>>, <<60, 47, 97, 62>>, <<38, 34, 39>>}     \* "" </a> &"'
NsV == {sClient, <<117>>}
A0 == [i |-> 0, j |-> 0, ok |-> 1, rc |-> 0, freed |-> 0]
RECURSIVE Esc(_, _)
Esc(b, i) == IF i > Len(b) THEN <<>>
  ELSE (IF b[i] = 38 THEN <<38,97,109,112,59>> ELSE IF b[i] = 60 THEN <<38,108,116,59>> ELSE IF b[i] = 34 THEN <<38,113,117,111,116,59>> ELSE <<b[i]>>) \o Esc(b, i + 1)
RECURSIVE Render(_, _), RenderAt(_, _)
RenderAt(at, acc) == IF at = {} THEN acc
  ELSE LET a == CHOOSE a \in at : TRUE IN RenderAt(at \ {a}, acc \o <<32>> \o a[1] \o <<61, 34>> \o Esc(a[2], 1) \o <<34>>)
Render(h, x) ==
  IF h[x].k = "txt" THEN Esc(h[x].d, 1)
  ELSE <<60>> \o h[x].d \o RenderAt(h[x].at, <<>>) \o <<62>> \o Cat([i \in 1..Len(h[x].ch) |-> Render(h, h[x].ch[i])], 1) \o <<60, 47>> \o h[x].d \o <<62>>
Ops ==
  {[A0 EXCEPT !.i = i] @@ [op |-> "new"] : i \in {i \in 0..2 : own[i] = 0}}
  \cup {[A0 EXCEPT !.i = i] @@ [op |-> "name", v |-> v] : i \in {i \in 0..2 : own[i] = 1}, v \in Names}
  \cup {[A0 EXCEPT !.i = i] @@ [op |-> "text", v |-> v] : i \in {i \in 0..2 : own[i] = 1}, v \in Vals}
  \cup {[A0 EXCEPT !.i = i] @@ [op |-> "attr", k |-> k, v |-> v] : i \in {i \in 0..2 : own[i] = 1}, k \in {sId, sFrom}, v \in Vals}
  \cup {[A0 EXCEPT !.i = i] @@ [op |-> "attr", k |-> sXmlns, v |-> v] : i \in {i \in 0..2 : own[i] = 1}, v \in NsV}
  \cup {[A0 EXCEPT !.i = i, !.j = j] @@ [op |-> "add", mode |-> m] : i \in {i \in 0..2 : own[i] = 1}, j \in {i \in 0..2 : own[i] = 1}, m \in {0, 1}}
  \cup {[A0 EXCEPT !.i = i, !.j = j] @@ [op |-> o] : o \in {"clone", "copy", "reply"}, i \in {i \in 0..2 : own[i] = 0}, j \in {i \in 0..2 : own[i] = 1}}
  \cup {[A0 EXCEPT !.i = i] @@ [op |-> "release"] : i \in {i \in 0..2 : own[i] = 1}}
  \cup {[A0 EXCEPT !.i = i] @@ [op |-> "message", type |-> <<>>, to |-> <<>>, id |-> <<<<39>>>>] : i \in {i \in 0..2 : own[i] = 0}}
RECURSIVE IsAnc(_, _, _)
IsAnc(h, y, x) == x = y \/ (h[x].par # 0 /\ IsAnc(h, y, h[x].par))
Legal(o) == /\ o.op = "add" => (S.h[S.sl[o.j]].par = 0 /\ S.h[S.sl[o.i]].k = "tag" /\ ~IsAnc(S.h, S.sl[o.j], S.sl[o.i]))
            /\ o.op = "reply" => S.h[S.sl[o.j]].k = "tag"
            /\ o.op \in {"name"} => S.h[S.sl[o.i]].k # "txt"
            /\ o.op \in {"text"} => S.h[S.sl[o.i]].k # "tag"
            /\ o.op \in {"attr"} => S.h[S.sl[o.i]].k = "tag"
Init == S = SInit /\ own = [i \in 0..2 |-> 0] /\ n = 0
Next == /\ n < MaxOps
        /\ \E o \in Ops :
             /\ Legal(o)
             /\ S' = Exec(S, o).s
             /\ own' = IF o.op \in {"new", "message", "clone", "copy"} THEN [own EXCEPT ![o.i] = 1]
                       ELSE IF o.op = "reply" THEN [own EXCEPT ![o.i] = IF S'.sl[o.i] = 0 THEN 0 ELSE 1]
                       ELSE IF o.op = "release" THEN [own EXCEPT ![o.i] = 0]
                       ELSE IF o.op = "add" /\ o.mode = 0 THEN [own EXCEPT ![o.j] = 0]
                       ELSE own
        /\ n' = n + 1
Alive == {x \in 1..Len(S.h) : S.h[x].ref > 0}
Inv ==
  /\ \A i \in 0..2 : own[i] = 1 => S.sl[i] # 0 /\ S.h[S.sl[i]].ref > 0
  /\ \A x \in Alive :
       /\ S.h[x].ref = Cardinality({i \in 0..2 : own[i] = 1 /\ S.sl[i] = x}) + (IF S.h[x].par # 0 THEN 1 ELSE 0)
       /\ S.h[x].par # 0 => S.h[x].par \in Alive /\ \E k \in 1..Len(S.h[S.h[x].par].ch) : S.h[S.h[x].par].ch[k] = x
       /\ \A k \in 1..Len(S.h[x].ch) : S.h[x].ch[k] \in Alive /\ S.h[S.h[x].ch[k]].par = x
       /\ ~HasUnk(S.h, x) /\ S.h[x].par = 0 => RenderOk(S.h, x, Render(S.h, x)) = "ok"
=============================================================================

------------------------------ MODULE ModelXml ------------------------------
(* Every document of at most MaxTok lexical pieces, byte by byte, with the     *)
(* well-formedness of the event sequence as invariant; the document tree is    *)
(* also computed by an independent recursive definition over the pieces.       *)
EXTENDS Xml
CONSTANT MaxTok
Pieces == <<
  <<60,97,62>>,                          \* <a>
  <<60,47,97,62>>,                       \* </a>
  <<60,98,47,62>>,                       \* <b/>
  <<60,112,58,99,32,120,109,108,110,115,58,112,61,39,117,39,62>>,   \* <p:c xmlns:p='u'>
  <<60,47,112,58,99,62>>,                \* </p:c>
  <<60,97,32,120,109,108,110,115,61,39,118,39,32,105,61,34,38,108,116,59,34,62>>, \* <a xmlns='v' i="&lt;">
  <<120>>, <<38,97,109,112,59>>,         \* x &amp;
  <<60,33,91,67,68,65,84,65,91,60,93,93,62>>,   \* <![CDATA[<]]>
  <<60,33,45,45,120,45,45,62>>,          \* <!--x-->
  <<13,10>> >>
VARIABLES s, left, n, dep
vars == <<s, left, n, dep>>
Init == s = XInit /\ left = <<>> /\ n = 0 /\ dep = 0
Next == IF left # <<>>
        THEN s' = Feed(s, left[1]) /\ left' = Tail(left) /\ UNCHANGED <<n, dep>>
        ELSE /\ n < MaxTok /\ s.m # "err"
             /\ n' = n + 1
             /\ \E k \in 1..Len(Pieces) :
                  /\ left' = Pieces[k]
                  /\ dep' = dep + (IF k \in {1, 4, 6} THEN 1 ELSE IF k \in {2, 5} THEN -1 ELSE 0)
             /\ UNCHANGED s
Kinds == [i \in 1..Len(s.ev) |-> s.ev[i].k]
RECURSIVE NsOk(_)
NsOk(t) == IsTxt(t) \/ ((t.ns.none => t.ns.v = <<>>) /\ \A i \in 1..Len(t.ch) : NsOk(t.ch[i]) /\ t.ch[i] # [txt |-> <<>>]
             /\ (i > 1 => ~(IsTxt(t.ch[i]) /\ IsTxt(t.ch[i-1]))))
Inv ==
  /\ s.m # "unk"
  /\ (s.m # "err" /\ left = <<>>) => (Len(s.q) = dep /\ (s.m = "epilog" => dep = 0) /\ s.m \in {"start", "text", "epilog", "prolog"})
  /\ s.m # "err" => Len(s.stk) = (IF Len(s.q) >= 1 THEN Len(s.q) - 1 ELSE 0)
  /\ \A i \in 1..Len(s.ns) : s.ns[i][3] <= Len(s.q)
  /\ \A i \in 1..Len(Kinds) :
       /\ (Kinds[i] = "start") = (i = 1 /\ Kinds[1] # "error")
       /\ Kinds[i] = "end" => \A j \in i + 1 .. Len(Kinds) : Kinds[j] = "error"
       /\ Kinds[i] = "error" => i = Len(Kinds) /\ s.m = "err"
       /\ Kinds[i] = "stanza" => NsOk(s.ev[i].t)
=============================================================================

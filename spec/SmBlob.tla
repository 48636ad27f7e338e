-------------------------------- MODULE SmBlob --------------------------------
(* The persisted state of stream management (property C16): the format, its       *)
(* reader and writer.  Counters are kept as their four bytes.                     *)
(*   1a 00000000 | 1a sent | 1a handled | 7a n id | 9a n (7a n text)* |           *)
(*   ba n (1a number 7a n text)*                                                  *)
EXTENDS Integers, Sequences
B4(n) == <<(n \div 16777216) % 256, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
(* lengths beyond what any buffer holds are all the same                          *)
Huge == 16777216
N4(b) == IF b[1] # 0 THEN Huge ELSE ((b[2] * 256) + b[3]) * 256 + b[4]
(* ------------------------------------------------------------------ writer     *)
Fld(t, v) == <<t>> \o v
Txt(x) == Fld(122, B4(Len(x))) \o x
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Cat(Tail(q))
Write(s) == Fld(26, B4(0)) \o Fld(26, s.cnt) \o Fld(26, s.hin) \o Txt(s.id)
            \o Fld(154, B4(Len(s.q))) \o Cat([i \in 1..Len(s.q) |-> Txt(s.q[i])])
            \o Fld(186, B4(Len(s.un))) \o Cat([i \in 1..Len(s.un) |-> Fld(26, s.un[i].n) \o Txt(s.un[i].d)])
(* ------------------------------------------------------------------ reader     *)
(* each reader: p -> [p |-> position behind it, 0 when it isn't there, v]          *)
Rd(b, t, p) == IF p > 0 /\ p + 4 <= Len(b) /\ b[p] = t THEN [p |-> p + 5, v |-> SubSeq(b, p + 1, p + 4)] ELSE [p |-> 0, v |-> B4(0)]
RdTxt(b, p) == LET l == Rd(b, 122, p) IN
               IF l.p > 0 /\ l.p + N4(l.v) - 1 <= Len(b) THEN [p |-> l.p + N4(l.v), v |-> SubSeq(b, l.p, l.p + N4(l.v) - 1)] ELSE [p |-> 0, v |-> <<>>]
RECURSIVE RdQ(_, _, _), RdU(_, _, _)
RdQ(b, p, n) == IF n = 0 THEN [p |-> p, v |-> <<>>]
                ELSE LET x == RdTxt(b, p) IN
                     IF x.p = 0 THEN [p |-> 0, v |-> <<>>] ELSE LET y == RdQ(b, x.p, n - 1) IN [p |-> y.p, v |-> <<x.v>> \o y.v]
RdU(b, p, n) == IF n = 0 THEN [p |-> p, v |-> <<>>]
                ELSE LET h == Rd(b, 26, p)
                         x == RdTxt(b, h.p) IN
                     IF x.p = 0 THEN [p |-> 0, v |-> <<>>] ELSE LET y == RdU(b, x.p, n - 1) IN [p |-> y.p, v |-> <<[n |-> h.v, d |-> x.v]>> \o y.v]
(* an element has at least five bytes, so that a count which can't be true is      *)
(* recognised at once                                                             *)
Cnt(b, c) == IF c.p > 0 /\ N4(c.v) <= Len(b) THEN N4(c.v) ELSE 0 - 1
No == [ok |-> FALSE, cnt |-> <<>>, hin |-> <<>>, id |-> <<>>, q |-> <<>>, un |-> <<>>]
Read(b) ==
  LET v == Rd(b, 26, 1)
      c == Rd(b, 26, v.p)
      h == Rd(b, 26, c.p)
      i == RdTxt(b, h.p)
      m == Rd(b, 154, i.p)
      q == IF Cnt(b, m) < 0 THEN [p |-> 0, v |-> <<>>] ELSE RdQ(b, m.p, Cnt(b, m))
      k == Rd(b, 186, q.p)
      u == IF Cnt(b, k) < 0 THEN [p |-> 0, v |-> <<>>] ELSE RdU(b, k.p, Cnt(b, k))
  IN IF v.v = B4(0) /\ v.p > 0 /\ u.p = Len(b) + 1 /\ (u.p > 0)
     THEN [ok |-> TRUE, cnt |-> c.v, hin |-> h.v, id |-> i.v, q |-> q.v, un |-> u.v] ELSE No
State(s) == [cnt |-> s.cnt, hin |-> s.hin, id |-> s.id, q |-> s.q, un |-> s.un]
=============================================================================

-------------------------------- MODULE Dns ---------------------------------
(* RFC 1035 / RFC 2782: decoding an SRV response.  Byte offsets are 0-based.  *)
EXTENDS Naturals, Sequences
At(b, i) == b[i + 1]
U16(b, i) == At(b, i) * 256 + At(b, i + 1)
DOT == 46
Bad == [ok |-> FALSE, used |-> 0, name |-> <<>>, wire |-> 0, nul |-> FALSE]
Piece(b, i, l) == SubSeq(b, i + 1, i + l)
(* A name is decoded by a machine walking labels; start is the offset where    *)
(* the current piece began and a pointer must go strictly before it.           *)
RECURSIVE Walk(_, _, _, _, _, _)
Walk(b, i, start, acc, wire, used) ==
  IF i >= Len(b) THEN Bad
  ELSE LET l == At(b, i)
       IN IF l = 0 THEN [ok |-> TRUE, used |-> IF used > 0 THEN used ELSE i + 1, name |-> acc, wire |-> wire + 1,
                         nul |-> \E k \in 1..Len(acc) : acc[k] = 0]
          ELSE IF l < 64
            THEN IF i + 1 + l > Len(b) THEN Bad
                 ELSE Walk(b, i + 1 + l, start, (IF acc = <<>> THEN acc ELSE acc \o <<DOT>>) \o Piece(b, i + 1, l),
                           wire + l + 1, used)
          ELSE IF l >= 192
            THEN IF i + 1 >= Len(b) THEN Bad
                 ELSE LET p == (l - 192) * 256 + At(b, i + 1)
                      IN IF p >= start THEN Bad
                         ELSE Walk(b, p, p, acc, wire, IF used > 0 THEN used ELSE i + 2)
          ELSE Bad
(* used = offset just behind the name *)
Name(b, i) == Walk(b, i, i, <<>>, 0, 0)

RECURSIVE Questions(_, _, _)
Questions(b, j, n) ==        \* offset behind the question section, 0 = malformed
  IF n = 0 THEN j
  ELSE LET nm == Name(b, j) IN IF ~nm.ok \/ nm.wire > 255 \/ nm.used + 4 > Len(b) THEN 0 ELSE Questions(b, nm.used + 4, n - 1)

NoAnswers == [ok |-> FALSE, rr |-> <<>>]
RECURSIVE Answers(_, _, _, _)
Answers(b, j, n, acc) ==
  IF n = 0 THEN [ok |-> TRUE, rr |-> acc]
  ELSE LET nm == Name(b, j)
       IN IF ~nm.ok \/ nm.wire > 255 \/ nm.used + 10 > Len(b) THEN NoAnswers
          ELSE LET h == nm.used
                   type == U16(b, h)
                   class == U16(b, h + 2)
                   rdl == U16(b, h + 8)
                   d == h + 10
               IN IF d + rdl > Len(b) THEN NoAnswers
                  ELSE IF type = 33 /\ class = 1
                    THEN IF rdl < 7 THEN NoAnswers
                         ELSE LET t == Name(b, d + 6)
                              IN IF ~t.ok \/ t.wire > 255 \/ t.used # d + rdl \/ t.nul THEN NoAnswers
                                 ELSE Answers(b, d + rdl, n - 1,
                                        Append(acc, [p |-> U16(b, d), w |-> U16(b, d + 2), port |-> U16(b, d + 4), t |-> t.name]))
                    ELSE Answers(b, d + rdl, n - 1, acc)

IsResponse(b) == Len(b) >= 12 /\ At(b, 2) >= 128
NoError(b) == At(b, 3) % 16 = 0
Decode(b) ==
  IF ~IsResponse(b) THEN NoAnswers
  ELSE LET q == Questions(b, 12, U16(b, 4))
       IN IF q = 0 THEN NoAnswers ELSE Answers(b, q, U16(b, 6), <<>>)
WellFormed(b) == IsResponse(b) /\ NoError(b) /\ Decode(b).ok

Before(x, y) == x.p < y.p \/ (x.p = y.p /\ x.w >= y.w)
Sorted(l) == \A i \in 1 .. Len(l) - 1 : Before(l[i], l[i + 1])
Count(l, x) == Len(SelectSeq(l, LAMBDA y : y = x))
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Count(a, a[i]) = Count(b, a[i])
=============================================================================

-------------------------------- MODULE Jid ---------------------------------
(* RFC 7622 section 3.2 partition of an address, on byte sequences.          *)
EXTENDS Naturals, Sequences
SLASH == 47
AT == 64
None == [none |-> TRUE, v |-> <<>>]
Some(v) == [none |-> FALSE, v |-> v]
RECURSIVE FirstFrom(_, _, _)
FirstFrom(s, c, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = c THEN i ELSE FirstFrom(s, c, i + 1)
First(s, c) == FirstFrom(s, c, 1)

Resource(s) == LET k == First(s, SLASH) IN IF k = 0 THEN None ELSE Some(SubSeq(s, k + 1, Len(s)))
Bare(s)     == LET k == First(s, SLASH) IN IF k = 0 THEN s ELSE SubSeq(s, 1, k - 1)
Node(s)     == LET b == Bare(s)  k == First(b, AT) IN IF k = 0 THEN None ELSE Some(SubSeq(b, 1, k - 1))
Domain(s)   == LET b == Bare(s)  k == First(b, AT) IN IF k = 0 THEN b ELSE SubSeq(b, k + 1, Len(b))
Join(n, d, r) == (IF n.none THEN <<>> ELSE n.v \o <<AT>>) \o d \o (IF r.none THEN <<>> ELSE <<SLASH>> \o r.v)

BadLocal == {34, 38, 39, 47, 58, 60, 62, 64}      \* " & ' / : < > @
LimitPart == 1023
Has(s, S) == \E i \in 1..Len(s) : s[i] \in S
MustRefuse(n, d, r) == \/ d.none
                       \/ ~n.none /\ Has(n.v, BadLocal)
                       \/ Len(n.v) > LimitPart \/ Len(d.v) > LimitPart \/ Len(r.v) > LimitPart
MustBuild(n, d, r) == ~MustRefuse(n, d, r) /\ d.v # <<>> /\ ~Has(d.v, {SLASH, AT})
=============================================================================

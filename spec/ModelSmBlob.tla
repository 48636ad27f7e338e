----------------------------- MODULE ModelSmBlob -----------------------------
(* reader and writer of the format agree: every state is read back, and whatever  *)
(* is read is written the same way, also for bytes nobody wrote (one byte changed, *)
(* removed, inserted or the end cut off)                                          *)
EXTENDS SmBlob, FiniteSets, TLC
CONSTANTS Texts, Ns, Vals, MaxQ, MaxU
TextsM == {<<>>, <<122>>, <<0, 26>>}
NsM == {<<0, 0, 0, 0>>, <<255, 0, 1, 5>>}
VARIABLES s, b, phase
Seqs(X, n) == UNION {[1..k -> X] : k \in 0..n}
Init == /\ s \in [cnt : Ns, hin : Ns, id : Texts, q : Seqs(Texts, MaxQ), un : Seqs([n : Ns, d : Texts], MaxU)]
        /\ b = Write(s) /\ phase = 0
Put(i, v) == [b EXCEPT ![i] = v]
Del(i) == SubSeq(b, 1, i - 1) \o SubSeq(b, i + 1, Len(b))
Ins(i, v) == SubSeq(b, 1, i) \o <<v>> \o SubSeq(b, i + 1, Len(b))
Next == /\ phase = 0 /\ phase' = 1 /\ UNCHANGED s
        /\ \/ \E i \in 1..Len(b), v \in Vals : b' = Put(i, v)
           \/ \E i \in 1..Len(b) : b' = Del(i)
           \/ \E i \in 0..Len(b), v \in Vals : b' = Ins(i, v)
           \/ \E i \in 0..(Len(b) - 1) : b' = SubSeq(b, 1, i)
Inv == LET r == Read(b) IN
       /\ phase = 0 => (r.ok /\ State(r) = s)
       /\ r.ok => Write(r) = b
=============================================================================

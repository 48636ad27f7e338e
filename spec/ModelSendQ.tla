----------------------------- MODULE ModelSendQ -----------------------------
(* The library's queue algorithm (one list, 'written' and 'wip' per element, a     *)
(* counter of user elements, an acknowledgement request linked to the element it   *)
(* follows) under every schedule of sends, drops and partial writes.  SendQ.tla    *)
(* watches what the design does: TLC checks that it never objects.  hist is the    *)
(* program which is replayed against the library.                                  *)
EXTENDS SendQ
CONSTANTS MaxMoves, MaxQ, SM, Exp
RBytesM == <<250, 251>>
RSeqM == <<RBytesM>>
VARIABLES q, ulen, rs, n, S, bad, hist, left
vars == <<q, ulen, rs, n, S, bad, left>>
(* an element: owner, bytes, written, wip, number; lk: element to which a request belongs *)
E(o, v, k, lk) == [o |-> o, v |-> v, w |-> 0, wip |-> FALSE, k |-> k, lk |-> lk]
Bytes(k, sz) == [i \in 1..sz |-> k * 4 + i]
See(s, e) == LET r == Step(s, e) IN [s |-> r.s, b |-> r.ok]
RECURSIVE SeeAll(_, _, _)
SeeAll(s, b, es) == IF es = <<>> THEN [s |-> s, b |-> b] ELSE LET r == See(s, es[1]) IN SeeAll(r.s, IF b = "" THEN r.b ELSE b, Tail(es))
Put(s0, b0, es) == LET r == SeeAll(s0, b0, es) IN S' = r.s /\ bad' = r.b
Init == LET s == SeeAll(Init0, "", <<[e |-> "dial"], [e |-> "up", sm |-> SM, z |-> 0]>>).s
        IN q = <<>> /\ ulen = 0 /\ rs = FALSE /\ n = 0 /\ S = s /\ bad = "" /\ hist = <<>> /\ left = MaxMoves
Log(e) == hist' = Append(hist, e)
Add(o, v) == LET el == E(o, v, n + 1, 0)
                 r == E("R", RBytesM, n + 2, n + 1)
             IN IF SM = 1 /\ ~rs THEN q' = q \o <<el, r>> /\ rs' = TRUE ELSE q' = Append(q, el) /\ rs' = rs
Send == \E sz \in 1..2 :
          /\ Len(q) < MaxQ /\ Add("U", Bytes(n + 1, sz)) /\ ulen' = ulen + 1 /\ n' = n + 2
          /\ Put(S, bad, <<[e |-> "q", d |-> Bytes(n + 1, sz)]>>) /\ Log([m |-> "q", sz |-> sz])
(* the answer to the server's <r/>: a library element; and the server's <a/>         *)
Ans == /\ SM = 1 /\ Len(q) < MaxQ
       /\ q' = Append(q, E("L", Bytes(n + 1, 2), n + 1, 0)) /\ n' = n + 1
       /\ Put(S, bad, <<[e |-> "lib", v |-> <<Bytes(n + 1, 2)>>]>>) /\ Log([m |-> "lib"]) /\ UNCHANGED <<ulen, rs>>
Ack == SM = 1 /\ rs /\ rs' = FALSE /\ Log([m |-> "ack"]) /\ UNCHANGED <<q, ulen, n, S, bad>>
(* one loop iteration: the transport takes b bytes and then no more                  *)
RECURSIVE Write(_, _, _, _)
Write(x, u, b, out) ==
  IF x = <<>> THEN [q |-> x, u |-> u, out |-> out]
  ELSE LET todo == Len(x[1].v) - x[1].w IN
       IF b >= todo THEN Write(Tail(x), IF x[1].o = "U" THEN u - 1 ELSE u, b - todo, Append(out, SubSeq(x[1].v, x[1].w + 1, Len(x[1].v))))
       ELSE [q |-> <<[x[1] EXCEPT !.w = @ + b, !.wip = TRUE]>> \o Tail(x), u |-> u,
             out |-> IF b > 0 THEN Append(out, SubSeq(x[1].v, x[1].w + 1, x[1].w + b)) ELSE out]
RECURSIVE Sum(_)
Sum(x) == IF x = <<>> THEN 0 ELSE Len(x[1].v) - x[1].w + Sum(Tail(x))
Plan(x, b) == LET RECURSIVE P(_, _)
                  P(y, c) == IF y = <<>> THEN <<>>
                             ELSE LET todo == Len(y[1].v) - y[1].w IN
                                  IF c >= todo THEN <<<<y[1].o, 0>>>> \o P(Tail(y), c - todo) ELSE <<<<y[1].o, c>>>>
              IN P(x, b)
Loop == /\ q # <<>>
        /\ \E b \in 0..Sum(q) :
             LET r == Write(q, ulen, b, <<>>) IN
             /\ q' = r.q /\ ulen' = r.u
             /\ Put(S, bad, <<[e |-> "loop"]>> \o [i \in 1..Len(r.out) |-> [e |-> "wire", d |-> r.out[i]]])
             /\ Log([m |-> "loop", p |-> Plan(q, b), all |-> b = Sum(q)]) /\ UNCHANGED <<rs, n>>
Len1 == ulen - (IF q # <<>> /\ q[1].wip /\ q[1].o = "U" THEN 1 ELSE 0)
QLen == Put(S, bad, <<[e |-> "qlen", n |-> Len1]>>) /\ Log([m |-> "qlen"]) /\ UNCHANGED <<q, ulen, rs, n>>
(* the library's search                                                             *)
RECURSIVE Fwd(_)
Fwd(i) == IF i > Len(q) THEN 0 ELSE IF q[i].o = "U" THEN i ELSE Fwd(i + 1)
RECURSIVE Bwd(_)
Bwd(i) == IF i = 0 THEN 0 ELSE IF q[i].o = "U" THEN i ELSE Bwd(i - 1)
Drop == \E w \in {"old", "young"} :
  LET t0 == IF w = "old" THEN (IF q = <<>> THEN 0 ELSE 1) ELSE Bwd(Len(q))
      t1 == IF t0 = 1 /\ q[1].wip THEN 2 ELSE t0
      t == IF t0 = 0 THEN 0 ELSE Fwd(t1)
      lk == t # 0 /\ t < Len(q) /\ q[t + 1].lk = q[t].k
      d == IF t = 0 THEN <<-1>> ELSE q[t].v
  IN /\ Put(S, bad, <<[e |-> "drop", w |-> w, d |-> d]>>)
     /\ q' = IF t = 0 THEN q ELSE Del(IF lk THEN Del(q, t + 1) ELSE q, t)
     /\ rs' = IF lk THEN FALSE ELSE rs
     /\ ulen' = IF t = 0 THEN ulen ELSE ulen - 1
     /\ Log([m |-> "drop", w |-> w]) /\ UNCHANGED n
Next == left > 0 /\ left' = left - 1 /\ (Send \/ Ans \/ Ack \/ Loop \/ QLen \/ Drop)
(* the watcher agrees with everything the design does                               *)
Agrees == bad = ""
(* and the books are right                                                          *)
Books == /\ ulen = Cardinality({i \in 1..Len(q) : q[i].o = "U"})
         /\ \A i \in 2..Len(q) : q[i].w = 0 /\ ~q[i].wip
         /\ (q # <<>> => q[1].w < Len(q[1].v))
Export == (Exp = 1 /\ left = 0) => PrintT(<<"PROG", hist>>)
View == vars
=============================================================================

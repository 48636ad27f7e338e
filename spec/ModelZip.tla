------------------------------ MODULE ModelZip ------------------------------
(* The compression layer between the queue and the transport: an encoder which     *)
(* keeps input back as long as it likes and emits tokens, a staging buffer of C     *)
(* tokens, a flush that may not fit, a transport which takes b tokens and then no   *)
(* more.  In the other direction a staging buffer of one chunk, inflated by at most *)
(* L units an iteration.  Zip.tla watches.                                          *)
EXTENDS Zip
CONSTANTS MaxMoves, MaxQ, C, L, Inf, Dirs, Exp
VARIABLES q, win, buf, fl, n, S, bad, hist, left,
          net, stg, part, m
vars == <<q, win, buf, fl, n, S, bad, left, net, stg, part, m>>
Bytes(k, sz) == [i \in 1..sz |-> k * 4 + i]
RECURSIVE SeeAll(_, _, _)
SeeAll(s, b, es) == IF es = <<>> THEN [s |-> s, b |-> b]
                    ELSE LET r == ZStep(s, es[1]) IN SeeAll(r.s, IF b = "" THEN r.ok ELSE b, Tail(es))
Put(es) == LET r == SeeAll(S, bad, es) IN S' = r.s /\ bad' = r.b
Hdr == <<1, 2>>
RSeq == <<Hdr>>
Init == LET s == SeeAll(ZInit, "", <<[e |-> "dial", z |-> 1], [e |-> "auth"], [e |-> "feat", z |-> 1], [e |-> "ask", m |-> "zlib"], [e |-> "conf", v |-> <<Hdr>>]>>).s
        IN /\ q = <<Hdr>> /\ win = <<>> /\ buf = <<>> /\ fl = FALSE /\ n = 1 /\ S = s /\ bad = "" /\ hist = <<>> /\ left = MaxMoves
           /\ net = <<>> /\ stg = <<>> /\ part = 0 /\ m = 0
Log(e) == hist' = Append(hist, e)
Send == \E sz \in 1..3 :
          /\ Len(q) < MaxQ /\ q' = Append(q, Bytes(n + 1, sz)) /\ n' = n + 1
          /\ Put(<<[e |-> "q", d |-> Bytes(n + 1, sz)]>>) /\ Log([k |-> "q", sz |-> sz])
          /\ UNCHANGED <<win, buf, fl, net, stg, part, m>>
(* the transport takes as many tokens of the buffer as it wants                     *)
Net(x) == LET k == IF x.b < Len(x.buf) THEN x.b ELSE Len(x.buf) IN
          [x EXCEPT !.b = @ - k, !.buf = SubSeq(@, k + 1, Len(@)), !.out = @ \o SubSeq(x.buf, 1, k)]
(* room in the buffer, or not                                                       *)
Room(x) == IF Len(x.buf) < C THEN x ELSE Net(x)
(* deflate the element's bytes: after each the encoder may emit what it holds        *)
RECURSIVE Feed(_, _)
Feed(x, d) ==      \* -> set of <<x, number of bytes taken>>
  IF d = <<>> THEN {<<x, 0>>}
  ELSE LET y == Room(x) IN
       IF Len(y.buf) = C THEN {<<y, 0>>}
       ELSE UNION {{<<z[1], z[2] + 1>> : z \in Feed(w, Tail(d))} :
                   w \in {[y EXCEPT !.win = Append(@, d[1])],
                          [y EXCEPT !.win = <<>>, !.buf = Append(@, y.win \o <<d[1]>>)]}}
(* a sync flush: everything held becomes tokens, if there is room                   *)
Flush(x) == LET y == Room(x) IN
            IF x.win = <<>> THEN [y EXCEPT !.fl = FALSE]
            ELSE IF Len(y.buf) = C THEN [y EXCEPT !.fl = TRUE]
            ELSE [y EXCEPT !.fl = FALSE, !.win = <<>>, !.buf = Append(@, y.win)]
RECURSIVE Queue(_, _)
Queue(x, qq) ==    \* -> set of <<x, rest of the queue>>
  LET x0 == IF x.fl THEN Flush(x) ELSE x IN
  IF qq = <<>> THEN {<<x, qq>>}
  ELSE IF x0.fl THEN {<<x0, qq>>}
  ELSE UNION {IF r[2] = Len(qq[1]) THEN Queue(r[1], Tail(qq))
              ELSE {<<r[1], <<SubSeq(qq[1], r[2] + 1, Len(qq[1]))>> \o Tail(qq)>>} : r \in Feed(x0, qq[1])}
Loop == \E b \in {0, 1, 2, Inf} : \E r \in Queue([win |-> win, buf |-> buf, fl |-> fl, b |-> b, out |-> <<>>], q) :
          LET f == Flush([r[1] EXCEPT !.fl = TRUE])
              z == IF f.fl THEN f ELSE Net(f)
          IN /\ q' = r[2] /\ win' = z.win /\ buf' = z.buf /\ fl' = z.fl
             /\ Put(<<[e |-> "loop"]>> \o [i \in 1..Len(z.out) |-> [e |-> "wire", d |-> z.out[i]]] \o (IF b = Inf THEN <<[e |-> "lend"]>> ELSE <<>>))
             /\ Log([k |-> "loop", b |-> b])
             /\ UNCHANGED <<n, net, stg, part, m>>
(* the server: a stanza of sz units, in one chunk with others or apart              *)
Say == \E sz \in 1..3, apart \in BOOLEAN :
         /\ m < MaxQ /\ m' = m + 1
         /\ LET u == [i \in 1..sz |-> [k |-> m + 1, last |-> i = sz]] IN
            net' = IF apart \/ net = <<>> THEN Append(net, u) ELSE [net EXCEPT ![Len(net)] = @ \o u]
         /\ Log([k |-> "say", sz |-> sz, apart |-> apart])
         /\ UNCHANGED <<q, win, buf, fl, n, S, bad, stg, part>>
(* an iteration reads a chunk if the staging buffer is empty, and inflates L units  *)
Read == /\ net # <<>> \/ stg # <<>>
        /\ LET rd == stg = <<>>
               s0 == IF rd THEN net[1] ELSE stg
               k == IF Len(s0) < L THEN Len(s0) ELSE L
               ids(s) == SelectSeq(s, LAMBDA u : u.last)
               g == SubSeq(s0, 1, k)
               es == (IF rd THEN [i \in 1..Len(ids(s0)) |-> [e |-> "avail", d |-> ids(s0)[i].k, t |-> 0]] ELSE <<>>)
                      \o [i \in 1..Len(ids(g)) |-> [e |-> "in", d |-> ids(g)[i].k, t |-> 0]]
               rest == SubSeq(s0, k + 1, Len(s0))
               net1 == IF rd THEN Tail(net) ELSE net
           IN /\ stg' = rest /\ net' = net1
              /\ Put(es \o (IF rest = <<>> THEN <<[e |-> "quiet"]>> ELSE <<>>))
        /\ Log([k |-> "read"]) /\ UNCHANGED <<q, win, buf, fl, n, part, m>>
Dirs1 == {"out"}
Dirs2 == {"in"}
DirsB == {"out", "in"}
Next == left > 0 /\ left' = left - 1 /\ (("out" \in Dirs /\ (Send \/ Loop)) \/ ("in" \in Dirs /\ (Say \/ Read)))
Agrees == bad = ""
(* nothing is lost between the queue and the wire: what the watcher still waits for  *)
(* is what is held by the encoder, the buffer and the queue                          *)
RECURSIVE Cat(_)
Cat(x) == IF x = <<>> THEN <<>> ELSE x[1] \o Cat(Tail(x))
RECURSIVE Waits(_)
Waits(x) == IF x = <<>> THEN <<>> ELSE SubSeq(x[1].v[1], x[1].n + 1, Len(x[1].v[1])) \o Waits(Tail(x))
Books == \A x \in S.q.A : Waits(x) = Cat(buf) \o win \o Cat(q)
Export == (Exp = 1 /\ left = 0) => PrintT(<<"PROG", hist>>)
View == vars
=============================================================================

-------------------------------- MODULE SendQ --------------------------------
(* The send queue (property C06): what the peer gets is the concatenation of the  *)
(* queued elements, in order; the queue API tells and does what the queue is.     *)
(* Bytes are 0..255.  The acknowledgement requests of the library (R) are put     *)
(* between elements at places of its choosing while stream management is on; all  *)
(* other elements are placed by the events.  Because of that a state holds the    *)
(* set of queues which explain what was seen.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
OK(s) == [ok |-> "", s |-> s]
No(s, why) == [ok |-> why, s |-> s]
CONSTANT R
Elem(o, v) == [o |-> o, v |-> v, n |-> 0, at |-> FALSE]
Init0 == [up |-> FALSE, off |-> TRUE, sm |-> FALSE, z |-> FALSE, cl |-> FALSE, A |-> {<<>>}]
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE M(_, _, _)
M(q, d, sm) ==
  IF Len(d) = 0 THEN {q}
  ELSE (IF q = <<>> THEN {}
        ELSE UNION {LET v == q[1].v[i]
                        n == q[1].n
                        k == Min(Len(v) - n, Len(d)) IN
                    IF SubSeq(v, n + 1, n + k) # SubSeq(d, 1, k) THEN {}
                    ELSE IF n + k = Len(v) THEN M(Tail(q), SubSeq(d, k + 1, Len(d)), sm)
                    ELSE {<<[q[1] EXCEPT !.n = n + k, !.v = <<v>>]>> \o Tail(q)} : i \in 1..Len(q[1].v)})
       \cup (IF sm /\ (q = <<>> \/ (q[1].n = 0 /\ q[1].o # "R")) THEN M(<<[Elem("R", R) EXCEPT !.at = TRUE]>> \o q, d, sm) ELSE {})
Users(q) == {i \in 1..Len(q) : q[i].o = "U"}
Fresh(q) == {i \in Users(q) : q[i].n = 0}
(* the elements at the head which the library may have begun to transmit without a *)
(* byte having arrived: an attempted one, with compression all of them             *)
RECURSIVE Hid(_, _, _)
Hid(q, i, z) == IF i > Len(q) \/ ~q[i].at THEN {} ELSE {i} \cup (IF z \/ q[i].o # "U" THEN Hid(q, i + 1, z) ELSE {})
Hidden(q, z) == LET h == Hid(q, 1, z) IN {{i \in h : i <= j} : j \in 0..Cardinality(h)}
MinS(X) == CHOOSE x \in X : \A y \in X : x <= y
MaxS(X) == CHOOSE x \in X : \A y \in X : x >= y
(* a text is told as a C string: it ends at the first NUL                           *)
Told(v, d) == v = d \/ (Len(v) > Len(d) /\ v[Len(d) + 1] = 0 /\ SubSeq(v, 1, Len(d)) = d)
Del(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Push(S, el) == [S EXCEPT !.A = {Append(q, el) : q \in @}]
(* what dropping may do to queue q: pairs of text and rest                          *)
Drops(q, which, z, off) ==
  LET Pick(X) == IF X = {} THEN {} ELSE LET i == IF which = "old" THEN MinS(X) ELSE MaxS(X) IN {[v |-> q[i].v[1], q |-> Del(q, i)]}
      cands == {Fresh(q) \ h : h \in Hidden(q, z)} \cup (IF off THEN {Users(q)} ELSE {})
  IN UNION {IF X = {} THEN {[v |-> <<-1>>, q |-> q]} ELSE Pick(X) : X \in cands}
Step(S, e) ==
  CASE e.e = "dial" -> OK([Init0 EXCEPT !.off = FALSE])
    [] e.e = "up" -> OK([S EXCEPT !.up = TRUE, !.sm = e.sm = 1, !.z = e.z = 1, !.A = {<<>>}])
    [] e.e = "q" -> OK(IF S.up /\ ~S.off THEN Push(S, Elem("U", <<e.d>>)) ELSE S)
    [] e.e = "lib" -> OK(IF S.up /\ ~S.off THEN Push(S, Elem("L", e.v)) ELSE S)
    [] e.e = "close" -> OK(IF S.up /\ ~S.off /\ ~S.cl THEN [Push(S, Elem("L", e.v)) EXCEPT !.cl = TRUE] ELSE S)
    [] e.e = "loop" -> OK([S EXCEPT !.A = {[i \in 1..Len(q) |-> [q[i] EXCEPT !.at = TRUE]] : q \in @}])
    [] e.e = "wire" -> IF ~S.up THEN OK(S)
                       ELSE IF S.off THEN No(S, "bytes after the end of the connection")
                       ELSE LET A == UNION {M(q, e.d, S.sm) : q \in S.A} IN
                            IF A = {} THEN No(S, "what is sent is not the queue in its order") ELSE OK([S EXCEPT !.A = A])
    [] e.e = "qlen" -> IF ~S.up THEN OK(S)
                       ELSE IF \E q \in S.A : \E h \in Hidden(q, S.z) : e.n = Cardinality(Fresh(q) \ h) THEN OK(S)
                       ELSE No(S, "the length of the queue is not the number of the user's elements which have not been started")
    [] e.e = "drop" -> IF ~S.up THEN OK(S)
                       ELSE LET D == {d \in UNION {Drops(q, e.w, S.z, S.off) : q \in S.A} : Told(d.v, e.d)} IN
                            IF D = {} THEN No(S, "dropping does not return the text of the " \o (IF e.w = "old" THEN "oldest" ELSE "youngest") \o " element which has not been started")
                            ELSE OK([S EXCEPT !.A = {d.q : d \in D}])
    [] e.e = "down" -> OK([S EXCEPT !.off = TRUE])
    [] e.e = "drained" -> IF ~S.up \/ S.off \/ <<>> \in S.A THEN OK(S) ELSE No(S, "an element that is never sent although the transport accepts everything")
    [] OTHER -> No(S, "unknown event")
=============================================================================

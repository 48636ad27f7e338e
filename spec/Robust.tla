------------------------------- MODULE Robust --------------------------------
(* A connection under arbitrary bytes (property C01).  The observer follows what  *)
(* the client has read with the XML machine of Xml.tla (one transition per byte,   *)
(* restarted where the client opens a stream) and decides at the marks which the   *)
(* driver puts into the trace whether the connection had to stay usable or had to  *)
(* be over:                                                                        *)
(*   broken XML, the end of the stream or of the transport: over (at the latest     *)
(*   when the grace period of a disconnect has passed);                            *)
(*   a stream which is intact between two elements: elements are dispatched, the    *)
(*   user's go out, and the end of the stream ends the connection;                  *)
(*   whatever has happened: the user's disconnect ends it, exactly one notification *)
(*   per attempt, and the same object connects to a server that behaves.            *)
EXTENDS Xml
MaxDepth == 1000       \* the library may refuse deeper documents
OK(s) == [ok |-> "", s |-> s]
No(s, why) == [ok |-> why, s |-> s]
Rob0 == [att |-> FALSE, up |-> FALSE, raw |-> FALSE, fd |-> -1, x |-> XInit, err |-> FALSE, soft |-> FALSE, ends |-> FALSE, gone |-> FALSE, clo |-> FALSE,
         want |-> FALSE, got |-> FALSE, sent |-> FALSE]
Fresh(fd) == [Rob0 EXCEPT !.att = TRUE, !.fd = fd]
RECURSIVE Eat(_, _, _)
Eat(S, b, i) ==
  IF i > Len(b) \/ S.x.m \in {"err", "unk"} THEN S
  ELSE LET x == Feed(S.x, b[i])
           d == \E j \in 1..Len(x.ev) : x.ev[j].k = "end"
           y == IF d \/ Len(x.q) > MaxDepth THEN Unk(x) ELSE x
           (* an error inside of a token may be noticed when the token ends; before the root *)
           (* names and literals are tokens, too                                             *)
           hard == S.x.m \in {"text", "epilog"} \/ b[i] = GT
       IN Eat([S EXCEPT !.x = [y EXCEPT !.ev = <<>>], !.err = @ \/ (x.m = "err" /\ hard), !.soft = @ \/ x.m = "err", !.ends = @ \/ d], b, i + 1)
(* the same in one go if nothing ends or breaks *)
EatAll(S, b) ==
  LET x == FeedAll(S.x, b, 1) IN
  IF x.m \in {"err", "unk"} \/ Len(x.q) > MaxDepth \/ \E j \in 1..Len(x.ev) : x.ev[j].k = "end" THEN Eat(S, b, 1)
  ELSE [S EXCEPT !.x = [x EXCEPT !.ev = <<>>]]
Clean(S) == /\ S.att /\ ~S.soft /\ ~S.ends /\ ~S.gone /\ ~S.clo
            /\ S.x.m = "text" /\ Len(S.x.q) = 1 /\ S.x.u[1] = 0
Over(S, brk) == S.err \/ (brk = 1 /\ S.soft) \/ S.ends \/ S.gone
Why(S) == IF S.soft THEN "the XML was broken" ELSE IF S.ends THEN "the server closed the stream" ELSE "the transport failed"
Pred(S, p) ==
  LET want == IF ~S.att THEN <<0, 0, 1>> ELSE IF S.up \/ S.raw THEN <<0, 1, 0>> ELSE <<1, 0, 0>>
  IN IF p[1] + p[2] + p[3] # 1 THEN "not exactly one of connecting, connected, disconnected"
     ELSE IF p # want THEN "the predicates do not agree with the notifications" ELSE ""
Mark(S, e) ==
  CASE e.k = "probe0" -> OK([S EXCEPT !.want = Clean(S) /\ S.up, !.got = FALSE, !.sent = FALSE])
    [] e.k = "probe1" -> IF S.want /\ ~S.att THEN No(S, "an intact connection ended without a reason")
                         ELSE IF S.want /\ ~S.got THEN No(S, "a stanza on an intact connection does not reach its handler")
                         ELSE IF S.want /\ ~S.sent THEN No(S, "what the user sends on an intact connection does not go out")
                         ELSE OK([S EXCEPT !.want = FALSE])
    [] e.k = "unread" -> IF S.att THEN No(S, "wedged: what has arrived is not read") ELSE OK(S)
    [] e.k = "end1" -> IF S.att /\ S.ends THEN No(S, "not disconnected although the server closed the stream") ELSE OK(S)
    [] e.k = "late" -> IF S.att /\ Over(S, e.brk) THEN No(S, "wedged: not disconnected although " \o Why(S)) ELSE OK(S)
    [] e.k = "udisc1" -> IF S.att THEN No(S, "wedged: the user's disconnect does not end the connection") ELSE OK(S)
    [] e.k = "again0" -> IF S.att THEN No(S, "the connection object cannot be connected again") ELSE OK(S)
    [] e.k = "again1" -> IF ~S.att \/ ~(S.up \/ S.raw) THEN No(S, "the connection object does not connect to a correct server any more") ELSE OK(S)
    [] e.k = "rel" -> IF S.att THEN No(S, "released without a disconnect notification") ELSE IF e.freed # 1 \/ e.live # 0 THEN No(S, "the connection object is not released") ELSE OK(S)
    [] OTHER -> No(S, "unknown mark")
Step(S, e) ==
  CASE e.e = "dial" -> IF S.att THEN (IF e.rc = 0 THEN No(S, "an attempt is accepted while another one is going on") ELSE OK(S))
                       ELSE IF e.rc = 0 THEN OK(Fresh(e.fd)) ELSE IF e.must = 1 THEN No(S, "the connection object refuses to connect again") ELSE OK(S)
    [] e.e = "rd" -> IF ~S.att \/ e.fd # S.fd THEN OK(S)
                     ELSE IF e.unk = 1 THEN OK([S EXCEPT !.x = Unk(@), !.gone = @ \/ e.bad = 1])
                     ELSE LET T == EatAll(S, e.b) IN OK([T EXCEPT !.gone = @ \/ e.bad = 1])
    [] e.e = "open" -> IF e.fd = S.fd THEN OK([S EXCEPT !.x = XInit]) ELSE OK(S)
    [] e.e = "gone" -> IF e.fd = S.fd THEN OK([S EXCEPT !.gone = TRUE]) ELSE OK(S)
    [] e.e = "stage" -> OK(S)       \* the server begins to deviate
    [] e.e = "close" -> OK([S EXCEPT !.clo = TRUE])
    [] e.e = "sent" -> OK([S EXCEPT !.sent = TRUE])
    [] e.e = "got" -> OK([S EXCEPT !.got = TRUE])
    [] e.e = "cb" -> LET S1 == CASE e.ce = "connect" -> [S EXCEPT !.up = TRUE]
                                 [] e.ce = "raw" -> [S EXCEPT !.raw = TRUE]
                                 [] OTHER -> [S EXCEPT !.att = FALSE, !.up = FALSE, !.raw = FALSE]
                         p == Pred(S1, e.p)
                     IN IF ~S.att THEN No(S, "a notification after the attempt has ended")
                        ELSE IF e.ce = "connect" /\ S.up THEN No(S, "connected twice")
                        ELSE IF p # "" THEN No(S, p) ELSE OK(S1)
    [] e.e = "pred" -> LET p == Pred(S, e.p) IN IF p # "" THEN No(S, p) ELSE OK(S)
    [] e.e = "mark" -> Mark(S, e)
    [] e.e = "bad" -> No(S, e.why)
    [] OTHER -> No(S, "unknown event")
=============================================================================

--------------------------------- MODULE Zip ---------------------------------
(* Stream compression (property C20), seen from the peer: before the server has    *)
(* confirmed it bytes are plain; from then on they are one zlib stream which begins *)
(* with a new stream header and inflates to the queue of SendQ.tla; an iteration in *)
(* which the transport takes everything leaves nothing behind.  In the other        *)
(* direction the stanzas which can be inflated from what was read are dispatched,   *)
(* in order, none missing, none else, without waiting for more.                     *)
EXTENDS SendQ
ZInit == [q |-> Init0, allowed |-> FALSE, offer |-> FALSE, auth |-> FALSE, asked |-> FALSE, on |-> FALSE, av |-> <<>>, wild |-> FALSE, bad |-> FALSE, down |-> TRUE]
Sub(S, e) == LET r == Step(S.q, e) IN IF r.ok = "" THEN OK([S EXCEPT !.q = r.s]) ELSE No(S, r.ok)
Behind(q) == {i \in 1..Len(q) : q[i].at}
ZStep(S, e) ==
  CASE e.e = "dial" -> OK([ZInit EXCEPT !.allowed = e.z = 1, !.down = FALSE, !.q = [Init0 EXCEPT !.off = FALSE]])
    [] e.e = "auth" -> OK([S EXCEPT !.auth = TRUE, !.offer = FALSE])
    [] e.e = "feat" -> OK([S EXCEPT !.offer = e.z = 1])
    [] e.e = "ask" -> IF S.asked THEN No(S, "compression is asked for again")
                      ELSE IF ~S.allowed THEN No(S, "compression is asked for although the user has not allowed it")
                      ELSE IF ~S.auth \/ ~S.offer THEN No(S, "compression is asked for although it was not offered")
                      ELSE IF e.m # "zlib" THEN No(S, "a method other than zlib is asked for")
                      ELSE OK([S EXCEPT !.asked = TRUE])
    [] e.e = "junk" -> No(S, "the server cannot read what the client sends as XML")
    [] e.e = "badz" -> No(S, "the server cannot inflate what the client sends")
    [] e.e = "conf" -> IF S.on \/ ~S.asked THEN OK(S)
                       ELSE OK([S EXCEPT !.on = TRUE, !.q = [@ EXCEPT !.up = TRUE, !.z = TRUE, !.A = {<<Elem("L", e.v)>>}]])
    [] e.e = "smon" -> OK([S EXCEPT !.q.sm = TRUE])
    (* what the server deflates is not a stream any more: the client may object      *)
    [] e.e = "inject" -> OK([S EXCEPT !.wild = TRUE])
    [] S.wild /\ e.e \in {"wire", "lend", "drained"} -> OK(S)
    [] e.e \in {"q", "lib", "close", "loop", "wire", "drained"} -> Sub(S, e)
    (* the end of an iteration in which the transport took everything                *)
    [] e.e = "lend" -> IF ~S.on \/ S.down \/ S.q.off THEN OK(S)
                       ELSE LET A == {q \in S.q.A : Behind(q) = {}} IN
                            IF A = {} THEN No(S, "what was queued before the iteration is not inflated at its end")
                            ELSE OK([S EXCEPT !.q.A = A])
    [] e.e = "avail" -> OK([S EXCEPT !.av = Append(@, [d |-> e.d, t |-> e.t])])
    [] e.e = "in" -> IF S.av = <<>> THEN No(S, "a stanza is dispatched which the server has not deflated")
                     ELSE IF S.av[1].d # e.d THEN No(S, "a stanza is dispatched which is not the one the server has deflated")
                     ELSE IF e.t > S.av[1].t THEN No(S, "a stanza waits although it can be inflated")
                     ELSE OK([S EXCEPT !.av = Tail(@)])
    [] e.e = "unread" -> IF S.down \/ S.wild THEN OK(S) ELSE No(S, "compressed bytes which have arrived are not read")
    [] e.e = "corrupt" -> OK([S EXCEPT !.bad = TRUE])
    [] e.e = "quiet" -> IF S.down THEN OK(S)
                        ELSE IF S.av # <<>> /\ ~S.wild THEN No(S, "a stanza which the server has deflated is not dispatched")
                        ELSE IF S.bad THEN No(S, "the stream of the server is corrupt and the connection goes on")
                        ELSE OK(S)
    (* the server has closed the transport: everything it sent before is read        *)
    [] e.e = "down" -> IF e.eof = 1 /\ S.av # <<>> /\ ~S.wild THEN No(S, "a stanza which the server has deflated before it closed is not dispatched")
                       ELSE LET r == Step(S.q, [e |-> "down"]) IN OK([S EXCEPT !.q = r.s, !.down = TRUE, !.av = <<>>])
    [] OTHER -> No(S, "unknown event")
=============================================================================

---------------------------------- MODULE Sm ----------------------------------
(* Stream management (properties C04, C05, and what a state blob says for C16):   *)
(* what the client owes the server and what the server owes the client, seen from *)
(* the wire.  Stanzas are their texts; numbers are XEP-0198 counts.               *)
(*   U  sent and not acknowledged, E  to be retransmitted (in that order, first), *)
(*   N  queued by the user and not sent, aq  answers <a/> that are due            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
OK(s) == [ok |-> "", s |-> s]
CONSTANT Rules
(* s: where to go on when the rule isn't judged                                    *)
No(rule, s, why) == IF rule \in Rules \/ (s.rst /\ "C16" \in Rules) THEN [ok |-> rule \o ": " \o why, s |-> s] ELSE OK(s)
El(x, n) == [x |-> x, n |-> n]
Init0 == [live |-> FALSE, up |-> FALSE, act |-> FALSE, inact |-> FALSE, req |-> "", can |-> FALSE, id |-> "", rid |-> "",
          cnt |-> 0, ack |-> 0, U |-> <<>>, E |-> <<>>, N |-> <<>>, hin |-> 0, aq |-> <<>>, lax |-> FALSE, re |-> FALSE, wild |-> FALSE, rst |-> FALSE, fr |-> FALSE]
Xs(q) == [i \in 1..Len(q) |-> q[i].x]
Has(q, x) == \E i \in 1..Len(q) : q[i] = x
At(q, x) == CHOOSE i \in 1..Len(q) : q[i] = x /\ \A j \in 1..(i - 1) : q[j] # x
AtLast(q, x) == CHOOSE i \in 1..Len(q) : q[i] = x /\ \A j \in (i + 1)..Len(q) : q[j] # x
Cut(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
From(q, h) == SelectSeq(q, LAMBDA e : e.n >= h)
Number(q, n) == [i \in 1..Len(q) |-> El(q[i].x, n + i - 1)]
(* the end of a connection: what was to be retransmitted is still to be            *)
Down(S) == [S EXCEPT !.live = FALSE, !.up = FALSE, !.act = FALSE, !.inact = FALSE, !.req = "", !.aq = <<>>, !.lax = FALSE, !.re = FALSE,
                     !.U = S.U \o Number(S.E, S.cnt), !.cnt = S.cnt + Len(S.E), !.E = <<>>,
                     !.rid = IF S.can /\ S.id # "" THEN S.id ELSE IF S.can THEN S.rid ELSE "", !.id = ""]
(* a session that isn't resumed: everything which isn't known to have arrived is    *)
(* sent again when it is established                                               *)
Again(S) == IF S.re THEN [S EXCEPT !.E = S.E \o S.U, !.U = <<>>, !.lax = TRUE, !.re = FALSE] ELSE S
Blob(S, e) ==
  LET n == Len(e.un) - Len(S.U)   \* how many of E are still with the unacknowledged ones
      m == Len(S.E) - n
      T(rule, cond, why) == IF ~cond /\ (rule \in Rules \/ (S.rst /\ "C16" \in Rules)) THEN rule \o ": " \o why ELSE ""
      all == <<T("C16", S.id = "" \/ e.id = S.id, "the state names another session"),
               T("C05", e.hin = S.hin, "the state tells another number of received stanzas"),
               T("C04", n >= 0, "a stanza which the server hasn't acknowledged isn't retained"),
               T("C04", n <= Len(S.E), "the state holds stanzas which the server has acknowledged"),
               T("C04", n >= 0 /\ n <= Len(S.E) => [i \in 1..Len(e.un) |-> e.un[i].x] = Xs(S.U) \o SubSeq(Xs(S.E), m + 1, Len(S.E)),
                 "the retained stanzas are not the unacknowledged ones"),
               T("C04", n = 0 => e.cnt = S.cnt /\ \A i \in 1..Len(S.U) : e.un[i].n = S.U[i].n, "the numbers of the sent stanzas are wrong"),
               T("C16", n >= 0 /\ n <= Len(S.E) => e.q = SubSeq(Xs(S.E), 1, m) \o S.N, "the state doesn't hold the unsent stanzas")>>
      bad == SelectSeq(all, LAMBDA x : x # "")
  IN IF bad = <<>> THEN "" ELSE bad[1]
StepSane(S, e) ==
  CASE e.e = "dial" -> OK([Down(S) EXCEPT !.live = TRUE, !.N = <<>>, !.fr = FALSE])
    [] e.e = "up" -> OK([Again(S) EXCEPT !.up = TRUE])
    [] e.e = "down" -> OK(Down(S))
    [] e.e = "free" -> OK([Init0 EXCEPT !.N = S.N])
    [] e.e = "wipe" -> OK([S EXCEPT !.N = <<>>])
    (* a connection which has nothing but a persisted state; what was in the queue is  *)
    (* there until the next connection, what wasn't acknowledged is sent again          *)
    [] e.e = "restore" -> OK([Init0 EXCEPT !.N = e.q, !.U = e.un, !.cnt = e.cnt, !.hin = e.hin, !.can = TRUE, !.id = e.id, !.rst = TRUE, !.fr = TRUE])
    (* client *)
    [] e.e = "bind" -> OK([S EXCEPT !.re = TRUE])
    [] e.e = "enable" -> OK([S EXCEPT !.req = "enable"])
    [] e.e = "resume" -> IF e.h # S.hin THEN No("C05", [S EXCEPT !.req = "resume"], "<resume/> tells another count than the number of received stanzas")
                         ELSE IF e.id # S.rid THEN No("C04", S, "<resume/> of another session") ELSE OK([S EXCEPT !.req = "resume"])
    [] e.e = "stz" ->
         LET T == IF S.act THEN [S EXCEPT !.U = Append(@, El(e.x, S.cnt)), !.cnt = @ + 1] ELSE S IN
         IF S.E # <<>> /\ S.E[1].x = e.x THEN OK([T EXCEPT !.E = Tail(@)])
         ELSE IF S.N # <<>> /\ S.N[1] = e.x /\ (S.E = <<>> \/ S.lax) THEN OK([T EXCEPT !.N = Tail(@)])
         ELSE IF S.E # <<>> THEN No("C04", S, "something else is sent before the unacknowledged stanzas are retransmitted, or not in their order")
         ELSE IF Has(S.N, e.x) THEN No("C04", S, "not the stanza that is first in the queue")
         ELSE No("C04", S, "a stanza that isn't due is sent (again)")
    [] e.e = "a" -> IF S.aq = <<>> THEN No("C05", S, "an <a/> that wasn't requested")
                    ELSE IF e.h # S.aq[1] THEN No("C05", [S EXCEPT !.aq = Tail(@)], "<a/> tells another count than the number of received stanzas")
                    ELSE OK([S EXCEPT !.aq = Tail(@)])
    (* server *)
    [] e.e = "enabled" -> OK([Again(S) EXCEPT !.act = TRUE, !.inact = TRUE, !.hin = 0, !.cnt = 0, !.ack = 0, !.can = e.can = 1, !.id = IF e.can = 1 THEN e.id ELSE "", !.req = ""])
    [] e.e = "resumed" -> IF S.req # "resume" THEN OK([S EXCEPT !.wild = TRUE])
                          ELSE IF e.h < S.ack \/ e.h > S.cnt THEN OK([S EXCEPT !.wild = TRUE])
                          ELSE OK([S EXCEPT !.act = TRUE, !.inact = TRUE, !.req = "", !.id = S.rid, !.rid = "", !.E = From(S.U, e.h), !.U = <<>>,
                                            !.cnt = e.h, !.ack = e.h])
    [] e.e = "failed" -> IF S.req = "resume"
                         THEN (IF e.h # -1 /\ (e.h < S.ack \/ e.h > S.cnt) THEN OK([S EXCEPT !.wild = TRUE])
                               ELSE OK([S EXCEPT !.U = IF e.h = -1 THEN S.U ELSE From(S.U, e.h), !.req = "", !.re = TRUE, !.can = FALSE, !.rid = "", !.id = "", !.hin = 0]))
                         ELSE OK([S EXCEPT !.act = FALSE, !.inact = FALSE, !.can = FALSE, !.req = ""])
    [] e.e = "in" -> OK(IF S.inact THEN [S EXCEPT !.hin = @ + 1] ELSE S)
    [] e.e = "r" -> OK(IF S.inact THEN [S EXCEPT !.aq = Append(@, S.hin)] ELSE S)
    [] e.e = "ack" -> IF ~S.act \/ e.h < S.ack THEN OK(S)      \* e.h = -1: no number
                      ELSE IF e.h > S.cnt THEN OK([S EXCEPT !.wild = TRUE])
                      ELSE OK([S EXCEPT !.U = From(@, e.h), !.ack = e.h])
    (* user *)
    [] e.e = "q" -> OK(IF S.up THEN [S EXCEPT !.N = Append(@, e.x)] ELSE S)
    [] e.e = "drop" -> LET Q == Xs(S.E) \o S.N IN
                       IF ~Has(Q, e.x) THEN (IF "C06" \in Rules THEN No("C06", S, "dropping returned a stanza that is not in the queue")
                                             ELSE No("C04", S, "dropping returned a stanza that is not in the queue"))
                       (* the first element may be on its way already             *)
                       ELSE IF ~S.lax /\ "C06" \in Rules /\ ~(IF e.w = 1 THEN e.x \in {Q[1], Q[IF Len(Q) > 1 THEN 2 ELSE 1]} ELSE e.x = Q[Len(Q)])
                       THEN No("C06", S, "dropping returned another element than the oldest or youngest one")
                       ELSE IF Has(S.N, e.x) THEN OK([S EXCEPT !.N = Cut(@, IF e.w = 1 THEN At(@, e.x) ELSE AtLast(@, e.x))])
                       ELSE OK([S EXCEPT !.E = Cut(@, At(Xs(@), e.x))])
    [] e.e = "nodrop" -> IF (S.up \/ ~S.live) /\ Len(S.E) + Len(S.N) > 1 THEN No("C06", S, "the queue is said to be empty") ELSE OK(S)
    [] e.e = "qlen" -> LET n == Len(S.E) + Len(S.N) IN
                       IF (S.up \/ ~S.live) /\ ~S.re /\ e.n \notin {n, n - 1} THEN No("C06", S, "wrong queue length")
                       ELSE IF S.fr /\ e.n # Len(S.N) THEN No("C06", S, "wrong queue length") ELSE OK(S)
    [] e.e = "badblob" -> No("C16", S, "what the application is given isn't a state, or it is refused")
    [] e.e = "blob" -> LET b == Blob(S, e) IN [ok |-> b, s |-> S]
    [] e.e = "drained" -> IF ~S.up THEN OK(S)
                          ELSE IF S.E # <<>> THEN No("C04", S, "an unacknowledged stanza is never retransmitted")
                          ELSE IF S.N # <<>> THEN No("C04", S, "a stanza is never sent")
                          ELSE IF S.aq # <<>> THEN No("C05", S, "an <r/> is never answered") ELSE OK(S)
    [] OTHER -> [ok |-> "unknown event", s |-> S]
(* a server that counts what it can't have got ends the obligations                *)
Step(S, e) == IF S.wild THEN OK(S) ELSE StepSane(S, e)
=============================================================================

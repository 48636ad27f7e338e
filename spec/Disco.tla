-------------------------------- MODULE Disco --------------------------------
(* Where a connection attempt goes (property C14): the endpoints of an attempt,   *)
(* the order in which they are tried, when the next one may and must be tried,    *)
(* and when failure may be reported.  Step(S, e) is the observer.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT U
OK(s) == [ok |-> "", s |-> s]
No(s, why) == [ok |-> why, s |-> s]
DefaultPort(c) == IF c.kind = "component" THEN 5347 ELSE IF c.lssl = 1 THEN 5223 ELSE 5222
(* SRV is asked only if nothing says where to go                                   *)
UsesSrv(c) == c.kind # "component" /\ c.host = "-" /\ c.lssl = 0
QName(c) == "_xmpp-client._tcp." \o c.dom
Recs(c) ==
  IF UsesSrv(c) /\ Len(c.srv) > 0 THEN c.srv
  ELSE <<[p |-> 0, w |-> 0, port |-> IF c.port # 0 THEN c.port ELSE DefaultPort(c), t |-> IF c.host # "-" THEN c.host ELSE c.dom]>>
Addrs(c, h) == IF \E i \in 1..Len(c.hosts) : c.hosts[i].h = h THEN c.hosts[CHOOSE i \in 1..Len(c.hosts) : c.hosts[i].h = h].a ELSE <<>>
(* the records (by index) which may come next: lowest priority, then heaviest       *)
Best(r, todo) == {i \in todo : \A j \in todo : r[i].p < r[j].p \/ (r[i].p = r[j].p /\ r[i].w >= r[j].w)}
(* what remains: cur - addresses of the target being tried, todo - later targets    *)
RECURSIVE Nexts(_, _, _)
Nexts(c, r, x) ==
  IF x.cur # <<>> THEN {[ip |-> x.cur[1], port |-> x.port, rest |-> [x EXCEPT !.cur = Tail(@)]]}
  ELSE UNION {Nexts(c, r, [cur |-> Addrs(c, r[i].t), port |-> r[i].port, todo |-> x.todo \ {i}]) : i \in Best(r, x.todo)}
All(S) == UNION {Nexts(S.c, S.r, x) : x \in S.rem}
Exhausted(S) == \E x \in S.rem : Nexts(S.c, S.r, x) = {}
S0 == [att |-> FALSE, c |-> [kind |-> "-"], r |-> <<>>, rem |-> {}, fate |-> "-", at |-> 0, fd |-> 0, used |-> FALSE, ud |-> FALSE, in |-> FALSE]
Init0 == <<S0, S0>>
Failed(S, t) == \/ S.fate \in {"-", "refuse", "unreach", "late", "latereset"}
                \/ S.fate \in {"hang", "accept", "now"} /\ ~S.used /\ t >= S.at + 5 * U
Step1(S, e) ==
  CASE e.e = "dial" -> LET r == Recs(e.c) IN
         OK([S0 EXCEPT !.att = TRUE, !.c = e.c, !.r = r, !.rem = {[cur |-> <<>>, port |-> 0, todo |-> 1..Len(r)]}, !.in = TRUE])
    [] e.e = "dns" -> IF ~S.in \/ ~UsesSrv(S.c) THEN No(S, "an SRV lookup where the endpoint is given")
                      ELSE IF e.name # QName(S.c) THEN No(S, "an SRV lookup for something else") ELSE OK(S)
    [] e.e = "connect" ->
         LET m == {n \in All(S) : n.ip = e.ip /\ n.port = e.port} IN
         IF ~S.att THEN No(S, "a connection without an attempt")
         ELSE IF ~Failed(S, e.t) THEN No(S, "the next endpoint is tried although this one has not failed")
         ELSE IF m = {} THEN No(S, "an endpoint out of order")
         ELSE OK([S EXCEPT !.rem = {n.rest : n \in m}, !.fate = e.fate, !.at = e.t, !.fd = e.fd])
    [] e.e = "dialed" ->
         IF e.rc = 0 THEN OK([S EXCEPT !.in = FALSE])
         ELSE IF S.c.so = 1 THEN OK([S EXCEPT !.in = FALSE, !.att = FALSE])
         ELSE IF ~Exhausted(S) \/ S.fate \notin {"-", "refuse", "unreach"} THEN No(S, "failure returned before every endpoint was tried")
         ELSE OK([S EXCEPT !.in = FALSE, !.att = FALSE])
    [] e.e = "use" -> IF ~S.att \/ e.fd # S.fd \/ S.fate \notin {"accept", "now"} THEN No(S, "a stream on an endpoint that did not accept")
                      ELSE OK([S EXCEPT !.used = TRUE])
    [] e.e = "udisc" -> OK([S EXCEPT !.ud = TRUE])
    [] e.e = "disc" -> IF ~S.att THEN No(S, "a disconnect without an attempt")
                       ELSE IF ~S.used /\ ~S.ud /\ ~(Exhausted(S) /\ Failed(S, e.t)) THEN No(S, "failure reported before every endpoint was tried")
                       ELSE OK([S EXCEPT !.att = FALSE])
    [] e.e = "end" -> IF S.att /\ ~S.used /\ ~S.ud THEN No(S, "neither a connection nor a report of failure") ELSE OK(S)
    [] OTHER -> No(S, "unknown event")
Step(S, e) == LET r == Step1(S[e.k + 1], e) IN [ok |-> r.ok, s |-> [S EXCEPT ![e.k + 1] = r.s]]
=============================================================================

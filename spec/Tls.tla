-------------------------------- MODULE Tls --------------------------------
(* C08: when may a TLS session be used.                                         *)
(*                                                                              *)
(* A certificate: [id, by (id of the certificate whose key signed it; 0: none   *)
(* we know), ca (it may issue certificates), t (-1: not yet valid, 0, 1:        *)
(* expired), names (its dNSNames), cn]; names are sequences of octets.          *)
(* The verdict on a chain is defined from RFC 5280 / 6125 and is independent of *)
(* the library's order of checks.                                               *)
EXTENDS Integers, Sequences, FiniteSets
Low(b) == IF b >= 65 /\ b <= 90 THEN b + 32 ELSE b
Lower(s) == [i \in 1..Len(s) |-> Low(s[i])]
Dot == 46
Star == 42
RECURSIVE Labels(_)
Labels(s) == LET D == {i \in 1..Len(s) : s[i] = Dot} IN
             IF D = {} THEN <<s>>
             ELSE LET d == CHOOSE i \in D : \A j \in D : i <= j IN
                  <<SubSeq(s, 1, d - 1)>> \o Labels(SubSeq(s, d + 1, Len(s)))
(* "full-label wildcards only": the wildcard is the whole leftmost label and    *)
(* stands for exactly one label                                                 *)
Covers(p, d) ==
    /\ Len(d) > 0
    /\ \/ Lower(p) = Lower(d)
       \/ LET lp == Labels(Lower(p))  ld == Labels(Lower(d)) IN
          /\ Len(lp) = Len(ld) /\ Len(lp) >= 2
          /\ lp[1] = <<Star>> /\ Len(ld[1]) > 0
          /\ SubSeq(lp, 2, Len(lp)) = SubSeq(ld, 2, Len(ld))
Range(s) == {s[i] : i \in 1..Len(s)}
Names(c, d) == IF Len(c.names) > 0 THEN \E n \in Range(c.names) : Covers(n, d) ELSE Covers(c.cn, d)
(* certificates that take part: chain is what the server sent, anchors what the *)
(* user configured                                                              *)
RECURSIVE Path(_, _, _, _)
Path(c, pool, anch, n) ==
    IF c.id \in {a.id : a \in anch} THEN <<c>>
    ELSE IF n = 0 THEN <<>>
    ELSE LET I == {i \in pool : i.id = c.by /\ i.id # c.id /\ i.ca = 1} IN
         IF I = {} THEN <<>>
         ELSE LET p == Path(CHOOSE i \in I : TRUE, pool, anch, n - 1) IN
              IF p = <<>> THEN <<>> ELSE <<c>> \o p
PathOf(chain, anch) == Path(chain[1], Range(chain) \cup anch, anch, 6)
(* certificates that fail on their own account; {} and a path: the chain is good *)
Failing(chain, anch, dom) ==
    LET p == PathOf(chain, anch)
        n == Len(p)
    IN {chain[1].id : z \in {0} \cap (IF chain[1].t # 0 \/ ~Names(chain[1], dom) THEN {0} ELSE {})}
       \cup {p[i].id : i \in {j \in 1..(n - 1) : p[j].t # 0}}
Good(chain, anch, dom) == PathOf(chain, anch) # <<>> /\ Failing(chain, anch, dom) = {}

------------------------------------------------------------------------------
TInit == [on |-> FALSE, ok |-> FALSE, mode |-> "", trust |-> 0, cb |-> 0, chain |-> <<>>, anch |-> {}, dom |-> <<>>,
          fd |-> 0, asked |-> {}, rej |-> FALSE, calls |-> 0, proceed |-> FALSE, hello |-> FALSE, closed |-> FALSE,
          srv |-> 0, sec |-> FALSE, disc |-> TRUE, done |-> FALSE]
Accepted(S) ==
    /\ S.cb = 1 /\ ~S.rej /\ S.calls > 0
    /\ Failing(S.chain, S.anch, S.dom) \subseteq S.asked
Allowed(S) ==
    /\ S.ok /\ S.hello /\ ~S.closed
    /\ (S.srv = 1)
    /\ (S.trust = 1 \/ Good(S.chain, S.anch, S.dom) \/ Accepted(S))
(* TLS has been asked for on this socket *)
Begun(S) == S.hello \/ S.proceed \/ S.mode = "ssl"
Ok(s) == [ok |-> "", s |-> s]
No(S, why) == [ok |-> why, s |-> S]
TStep(S, e) ==
    CASE e.e = "dial" ->
         Ok([TInit EXCEPT !.on = TRUE, !.ok = (e.rc = 0), !.mode = e.mode, !.trust = e.trust, !.cb = e.cb, !.chain = e.chain,
                          !.anch = Range(e.anch), !.dom = e.dom, !.srv = e.srv])
      [] e.e = "connect" ->
         (* another address of the same attempt; the first bytes of TLS are not sent before *)
         Ok([S EXCEPT !.fd = e.fd, !.closed = FALSE, !.hello = FALSE, !.proceed = FALSE, !.asked = {}, !.rej = FALSE, !.calls = 0])
      [] e.e = "proceed" -> Ok([S EXCEPT !.proceed = TRUE])
      [] e.e = "hello" ->
         IF e.fd # S.fd \/ S.closed THEN No(S, "ClientHello outside of an attempt")
         ELSE Ok([S EXCEPT !.hello = TRUE])
      [] e.e = "certfail" ->
         IF S.cb = 0 THEN No(S, "asked a callback that isn't installed")
         ELSE IF ~S.hello \/ S.closed THEN No(S, "asked about a certificate without a handshake")
         ELSE IF e.id = 0 THEN No(S, "asked about a certificate the server didn't send")
         ELSE Ok([S EXCEPT !.calls = @ + 1, !.asked = @ \cup {e.id}, !.rej = (@ \/ e.ans = 0)])
      [] e.e = "tx" ->
         IF e.fd # S.fd THEN No(S, "data on another socket")
         ELSE IF e.sec = 1 THEN (IF Allowed(S) THEN Ok([S EXCEPT !.sec = TRUE]) ELSE No(S, "data over an untrusted TLS session"))
         ELSE IF S.sec THEN No(S, "clear text on a secured connection")
         ELSE IF S.mode = "ssl" THEN No(S, "clear text in legacy SSL mode")
         ELSE IF Begun(S) /\ S.mode # "raw" /\ e.k # "close" THEN No(S, "continued in the clear")
         ELSE Ok(S)
      [] e.e = "rc" ->
         IF e.rc = 0 /\ ~Allowed(S) THEN No(S, "xmpp_conn_tls_start() succeeded")
         ELSE Ok([S EXCEPT !.sec = (e.rc = 0)])
      [] e.e = "cb" ->
         IF e.ce = 0 /\ (S.mode = "ssl" \/ (Begun(S) /\ S.mode # "raw")) /\ ~(Allowed(S) /\ e.sec = 1) THEN No(S, "connected without the TLS session it asked for")
         ELSE IF e.ce = 2 THEN Ok([S EXCEPT !.done = TRUE])
         ELSE Ok(S)
      [] e.e = "pred" ->
         IF e.sec = 1 /\ ~Allowed(S) THEN No(S, "reported as secured")
         ELSE IF e.sec = 0 /\ e.up = 1 /\ S.mode # "raw" /\ Begun(S) THEN No(S, "reported as connected without TLS")
         ELSE Ok([S EXCEPT !.sec = (e.sec = 1), !.disc = (e.disc = 1)])
      [] e.e = "close" -> Ok(IF e.fd = S.fd THEN [S EXCEPT !.closed = TRUE, !.sec = FALSE] ELSE S)
      [] e.e = "end" ->
         IF S.on /\ S.ok /\ S.mode # "raw" /\ S.fd # 0 /\ Begun(S) /\ ~S.sec /\ ~(S.closed /\ S.disc /\ S.done) THEN No(S, "not torn down after a failed handshake")
         ELSE Ok(S)
      [] OTHER -> Ok(S)
=============================================================================

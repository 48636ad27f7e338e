------------------------------ MODULE Handlers ------------------------------
(* Registration and dispatch of stanza, id and timed handlers (property C11).     *)
(* Step(S, e) is the only transition function: a registration call, a callback    *)
(* observed, its return value, an incoming stanza, a loop iteration.  The result  *)
(* is [ok |-> "" or reason, s |-> next state].                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
NoStr == "-"                                    \* NULL filter / missing attribute
Conn0 == [id |-> <<>>, st |-> <<>>, tm |-> <<>>, up |-> FALSE, q |-> <<>>, cur |-> 0, opt |-> FALSE, pend |-> <<>>]
Init0(K) == [c |-> [k \in K |-> Conn0], gl |-> <<>>, run |-> <<>>, due |-> {}, n |-> 1]
OK(s) == [ok |-> "", s |-> s]
No(s, why) == [ok |-> why, s |-> s]
Keep(q, P(_)) == SelectSeq(q, P)

(* ------------------------------------------------------------- filters *)
Match(h, z) == /\ (h.ns = NoStr \/ h.ns = z.ns \/ \E i \in 1..Len(z.cns) : z.cns[i] = h.ns)
               /\ (h.nm = NoStr \/ h.nm = z.nm)
               /\ (h.ty = NoStr \/ h.ty = z.ty)
Snapshot(c, z) ==
  LET ids == IF z.id = NoStr THEN <<>> ELSE Keep(c.id, LAMBDA h : h.id = z.id)
      sts == Keep(c.st, LAMBDA h : Match(h, z))
  IN ids \o sts

RECURSIVE Advance(_)                            \* go on to the next stanza that has a handler
Advance(c) == IF c.q # <<>> \/ c.pend = <<>> THEN c
              ELSE LET z == Head(c.pend) IN
                   Advance([c EXCEPT !.pend = Tail(@), !.cur = z.n, !.opt = FALSE, !.q = Snapshot([c EXCEPT !.q = <<>>], z)])
RECURSIVE SkipTo(_, _, _)                       \* handlers of an optional dispatch may be left out
SkipTo(q, f, u) == IF q = <<>> \/ (Head(q).f = f /\ Head(q).u = u) THEN q ELSE SkipTo(Tail(q), f, u)

Add(q, h) == IF \E i \in 1..Len(q) : q[i].f = h.f /\ q[i].u = h.u THEN q ELSE Append(q, h)
AddId(q, h) == IF \E i \in 1..Len(q) : q[i].f = h.f /\ q[i].u = h.u /\ q[i].id = h.id THEN q ELSE Append(q, h)

Without(S, k, P(_)) ==      \* drop the handlers with P from connection k and from its dispatch
  [S EXCEPT !.c[k].id = Keep(@, LAMBDA h : ~P(h)), !.c[k].st = Keep(@, LAMBDA h : ~P(h)),
            !.c[k].tm = Keep(@, LAMBDA h : ~P(h)), !.c[k].q = Keep(@, LAMBDA h : ~P(h)),
            !.due = {d \in @ : ~P(d)}]
WithoutG(S, P(_)) == [S EXCEPT !.gl = Keep(@, LAMBDA h : ~P(h)), !.due = {d \in @ : ~P(d)}]

Range(q) == {q[i] : i \in 1..Len(q)}
Touch(q, key, t) == [i \in 1..Len(q) |-> IF q[i].key = key THEN [q[i] EXCEPT !.last = t, !.hi = t] ELSE q[i]]
TimerKeys(S) == UNION {{h.key : h \in Range(S.c[k].tm)} : k \in {x \in DOMAIN S.c : S.c[x].up}} \cup {h.key : h \in Range(S.gl)}
DueAt(S, t) == UNION {{h \in Range(S.c[k].tm) : t - h.hi >= h.per} : k \in {x \in DOMAIN S.c : S.c[x].up}}
               \cup {h \in Range(S.gl) : t - h.hi >= h.per}
Late(S) == {d \in S.due : d.key \in TimerKeys(S)}
Fire(S, q, e, up) ==       \* the timed handler of e in list q
  LET M == {h \in Range(q) : h.f = e.f /\ h.u = e.u} IN
  IF M = {} THEN "a timed handler that is not registered was called"
  ELSE IF ~up THEN "a timed handler was called while its connection was not connected"
  ELSE IF \E h \in M : e.t - h.last < h.per THEN "a timed handler fired early" ELSE ""

(* the stanzas of the last read are dispatched before anything else happens        *)
Settled(S) == \A k \in DOMAIN S.c : Advance([S.c[k] EXCEPT !.q = IF S.c[k].opt THEN <<>> ELSE @]).q = <<>>
Settle(S) == [S EXCEPT !.c = [k \in DOMAIN S.c |-> [S.c[k] EXCEPT !.pend = <<>>, !.q = <<>>, !.opt = FALSE]]]
RECURSIVE Do(_, _)
Step(S, e) ==
  IF S.run = <<>> /\ e.e \notin {"h", "stz", "up", "arm", "down", "ret"} /\ \E k \in DOMAIN S.c : S.c[k].pend # <<>> \/ S.c[k].q # <<>>
  THEN IF Settled(S) THEN Do(Settle(S), e) ELSE No(S, "a matching handler was not called")
  ELSE Do(S, e)
Do(S, e) ==
  CASE e.e = "iadd" -> OK([S EXCEPT !.c[e.k].id = AddId(@, [kd |-> "i", f |-> e.f, u |-> e.u, id |-> e.id, key |-> S.n]), !.n = @ + 1])
    [] e.e = "idel" -> OK(Without(S, e.k, LAMBDA h : h.kd = "i" /\ h.f = e.f /\ h.id = e.id))
    [] e.e = "hadd" -> OK([S EXCEPT !.c[e.k].st = Add(@, [kd |-> "s", f |-> e.f, u |-> e.u, ns |-> e.ns, nm |-> e.nm, ty |-> e.ty, key |-> S.n]), !.n = @ + 1])
    [] e.e = "hdel" -> OK(Without(S, e.k, LAMBDA h : h.kd = "s" /\ h.f = e.f))
    [] e.e = "tadd" -> OK([S EXCEPT !.c[e.k].tm = Add(@, [kd |-> "t", f |-> e.f, u |-> e.u, per |-> e.per, last |-> e.t, hi |-> e.t, key |-> S.n]), !.n = @ + 1])
    [] e.e = "tdel" -> OK(Without(S, e.k, LAMBDA h : h.kd = "t" /\ h.f = e.f))
    [] e.e = "gadd" -> OK([S EXCEPT !.gl = Add(@, [kd |-> "g", f |-> e.f, u |-> e.u, per |-> e.per, last |-> e.t, hi |-> e.t, key |-> S.n]), !.n = @ + 1])
    [] e.e = "gdel" -> OK(WithoutG(S, LAMBDA h : h.f = e.f))
    [] e.e = "stz" ->
         IF e.opt = 1 THEN OK([S EXCEPT !.c[e.k].q = Snapshot(S.c[e.k], e), !.c[e.k].opt = TRUE, !.c[e.k].cur = e.n])
         ELSE OK([S EXCEPT !.c[e.k].pend = Append(@, e)])
    [] e.e = "h" ->
         IF S.run # <<>> THEN No(S, "a handler was called inside another one") ELSE
         LET c0 == S.c[e.k]
             c1 == IF c0.opt THEN [c0 EXCEPT !.q = IF c0.cur = e.n THEN SkipTo(@, e.f, e.u) ELSE <<>>] ELSE c0
             c2 == Advance(c1)
         IN IF c2.q = <<>> THEN No(S, "a handler was called that matches no stanza")
            ELSE IF c2.cur # e.n THEN No(S, "a handler was not called for the stanza before")
            ELSE IF Head(c2.q).f # e.f \/ Head(c2.q).u # e.u THEN No(S, "not the next matching handler")
            ELSE OK([S EXCEPT !.c[e.k] = [c2 EXCEPT !.q = Tail(@)], !.run = <<[k |-> e.k, key |-> Head(c2.q).key, g |-> FALSE]>>])
    [] e.e = "th" ->
         LET w == Fire(S, S.c[e.k].tm, e, S.c[e.k].up) IN
         IF S.run # <<>> THEN No(S, "a handler was called inside another one")
         ELSE IF w # "" THEN No(S, w)
         ELSE LET h == CHOOSE x \in Range(S.c[e.k].tm) : x.f = e.f /\ x.u = e.u IN
              OK([S EXCEPT !.c[e.k].tm = Touch(@, h.key, e.t), !.run = <<[k |-> e.k, key |-> h.key, g |-> FALSE]>>,
                           !.due = {d \in @ : d.key # h.key}])
    [] e.e = "gh" ->
         LET w == Fire(S, S.gl, e, TRUE) IN
         IF S.run # <<>> THEN No(S, "a handler was called inside another one")
         ELSE IF w # "" THEN No(S, w)
         ELSE LET h == CHOOSE x \in Range(S.gl) : x.f = e.f /\ x.u = e.u IN
              OK([S EXCEPT !.gl = Touch(@, h.key, e.t), !.run = <<[k |-> 0, key |-> h.key, g |-> TRUE]>>,
                           !.due = {d \in @ : d.key # h.key}])
    [] e.e = "ret" ->
         LET r == S.run[1]
             S1 == [S EXCEPT !.run = <<>>]
         IN IF e.v # 0 THEN OK(S1)
            ELSE IF r.g THEN OK(WithoutG(S1, LAMBDA h : h.key = r.key))
            ELSE OK(Without(S1, r.k, LAMBDA h : h.key = r.key))
    [] e.e = "up" -> OK([S EXCEPT !.c[e.k].up = TRUE])
    (* the stream starts: timers begin anew; whether a restart of the stream within  *)
    (* the negotiation counts as one is left open (last: earliest base, hi: latest)   *)
    [] e.e = "arm" -> OK([S EXCEPT !.c[e.k].tm = [i \in 1..Len(@) |-> [@[i] EXCEPT !.hi = e.t, !.last = IF e.first = 1 THEN e.t ELSE @]]])
    [] e.e = "down" -> OK([S EXCEPT !.c[e.k].up = FALSE, !.c[e.k].pend = <<>>, !.c[e.k].opt = FALSE,
                                    !.due = {d \in @ : d.kd = "g" \/ d.key \notin {h.key : h \in Range(S.c[e.k].tm)}}])
    [] e.e = "loop" -> IF Late(S) # {} THEN No(S, "a timed handler that was due did not fire in the loop iteration")
                       ELSE OK([S EXCEPT !.due = DueAt(S, e.t)])
    [] e.e = "quiet" ->     \* everything that was sent has been read
         IF Late(S) # {} THEN No(S, "a timed handler that was due did not fire in the loop iteration") ELSE OK([S EXCEPT !.due = {}])
    [] OTHER -> No(S, "unknown event")
=============================================================================

---------------------------- MODULE ModelHandlers ----------------------------
(* The user, the server and the dispatcher.  Two things at once:                  *)
(*  - a design check: a dispatcher that walks the live list and skips entries     *)
(*    that were added or removed meanwhile (the library's design) calls what the  *)
(*    snapshot semantics of Handlers.tla requires;                                *)
(*  - a generator: hist is a program (user moves, stanzas, return values) that is *)
(*    replayed against the library.                                               *)
EXTENDS Handlers
CONSTANTS MaxMoves, MaxKeys, NF, Exp
VARIABLES S, hist, live, pos, stz, left
vars == <<S, hist, live, pos, stz, left>>
F == 0..NF
Stz == {[e |-> "stz", k |-> 0, opt |-> 0, n |-> 0, id |-> i, ns |-> "a", nm |-> m, ty |-> "x", cns |-> c] :
         i \in {NoStr, "1"}, m \in {"message", "iq"}, c \in {<<>>, <<"q">>}}
Moves == {[e |-> "iadd", k |-> 0, f |-> f, u |-> u, id |-> "1"] : f \in F, u \in 0..1}
    \cup {[e |-> "idel", k |-> 0, f |-> f, id |-> "1"] : f \in F}
    \cup {[e |-> "hadd", k |-> 0, f |-> f, u |-> u, ns |-> n, nm |-> m, ty |-> NoStr] : f \in F, u \in 0..1, n \in {NoStr, "q"}, m \in {NoStr, "iq"}}
    \cup {[e |-> "hdel", k |-> 0, f |-> f] : f \in F}
Init == /\ S = Step(Init0({0}), [e |-> "up", k |-> 0]).s
        /\ hist = <<>> /\ live = <<>> /\ pos = 0 /\ stz = <<>> /\ left = MaxMoves
Log(e) == hist' = Append(hist, e)
(* live: the walker's list (id entries first), each with enabled flag; pos: last   *)
(* entry visited; deleted entries stay as tombstones while pos # 0                  *)
Inc(q, h) == IF \E i \in 1..Len(q) : ~q[i].dead /\ q[i].h.f = h.f /\ q[i].h.u = h.u /\ q[i].h.kd = h.kd THEN q ELSE Append(q, [h |-> h, on |-> FALSE, dead |-> FALSE])
Kill(q, P(_)) == [i \in 1..Len(q) |-> IF P(q[i].h) THEN [q[i] EXCEPT !.dead = TRUE] ELSE q[i]]
Move == /\ left > 0 /\ S.n < MaxKeys /\ (stz = <<>> \/ S.run # <<>>)
        /\ \E m \in Moves :
             /\ S' = Step(S, m).s /\ Log(m)
             /\ ~(S.run # <<>> /\ m.e \in {"hadd", "iadd"} /\ \E i \in 1..Len(live) : live[i].h.key = S.run[1].key /\ live[i].h.f = m.f)
             /\ live' = CASE m.e = "iadd" -> Inc(live, [kd |-> "i", f |-> m.f, u |-> m.u, key |-> S.n, z |-> [id |-> m.id]])
                          [] m.e = "hadd" -> Inc(live, [kd |-> "s", f |-> m.f, u |-> m.u, key |-> S.n, z |-> m])
                          [] m.e = "idel" -> Kill(live, LAMBDA h : h.kd = "i" /\ h.f = m.f)
                          [] OTHER -> Kill(live, LAMBDA h : h.kd = "s" /\ h.f = m.f)
        /\ left' = left - 1 /\ UNCHANGED <<pos, stz>>
Stanza == /\ left > 0 /\ stz = <<>> /\ S.run = <<>>
          /\ \E z \in Stz : LET z1 == [z EXCEPT !.n = 1] IN S' = Step(S, z1).s /\ Log(z1) /\ stz' = <<z1>>
          /\ live' = [i \in 1..Len(live) |-> [live[i] EXCEPT !.on = TRUE]]
          /\ pos' = 1 /\ left' = left - 1
(* the walker: id entries in list order, then the others                            *)
Hit(x) == /\ ~x.dead /\ x.on
          /\ IF x.h.kd = "i" THEN stz[1].id = x.h.z.id ELSE Match(x.h.z, stz[1])
Ordered == LET I == SelectSeq(live, LAMBDA x : x.h.kd = "i") IN I \o SelectSeq(live, LAMBDA x : x.h.kd = "s")
RECURSIVE NextHit(_, _)
NextHit(q, i) == IF i > Len(q) THEN 0 ELSE IF Hit(q[i]) THEN i ELSE NextHit(q, i + 1)
(* positions move when an id entry is appended, so the walker remembers the key     *)
VARIABLES seen
Call == /\ stz # <<>> /\ S.run = <<>>
        /\ LET q == SelectSeq(Ordered, LAMBDA x : x.h.key \notin seen)
               i == NextHit(q, 1)
           IN IF i = 0
              THEN /\ S' = Step(S, [e |-> "quiet"]).s /\ Step(S, [e |-> "quiet"]).ok = "" /\ Log([e |-> "quiet"])
                   /\ stz' = <<>> /\ pos' = 0 /\ seen' = {} /\ live' = SelectSeq(live, LAMBDA x : ~x.dead)
              ELSE /\ S' = Step(S, [e |-> "h", k |-> 0, f |-> q[i].h.f, u |-> q[i].h.u, n |-> stz[1].n]).s
                   /\ Log([e |-> "h", k |-> 0, f |-> q[i].h.f, u |-> q[i].h.u, n |-> stz[1].n])
                   /\ seen' = seen \cup {q[j].h.key : j \in 1..i} /\ UNCHANGED <<stz, pos, live>>
        /\ UNCHANGED left
Return == /\ S.run # <<>>
          /\ \E v \in {0, 1} :
               /\ S' = Step(S, [e |-> "ret", v |-> v]).s /\ Log([e |-> "ret", v |-> v])
               /\ live' = IF v = 0 THEN Kill(live, LAMBDA h : h.key = S.run[1].key) ELSE live
          /\ UNCHANGED <<pos, stz, left, seen>>
MInit == Init /\ seen = {}
MNext == \/ (Move /\ UNCHANGED seen) \/ (Stanza /\ UNCHANGED seen) \/ Call \/ Return
(* design: what the walker calls next is what the snapshot says must be called next *)
Agree ==
  (stz # <<>> /\ S.run = <<>>) =>
     LET q == SelectSeq(Ordered, LAMBDA x : x.h.key \notin seen)
         i == NextHit(q, 1)
         c == Advance(S.c[0])
     IN IF i = 0 THEN c.q = <<>> ELSE c.q # <<>> /\ Head(c.q).key = q[i].h.key
(* export: a finished program                                                       *)
Export == (Exp /\ left = 0 /\ stz = <<>> /\ S.run = <<>> /\ Len(hist) > 3) => PrintT(<<"PROG", hist>>)
View == <<S, live, pos, stz, seen, left>>
=============================================================================

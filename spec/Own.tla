-------------------------------- MODULE Own --------------------------------
(* Ownership.  Objects are stanza nodes (reference counted, Stanza.tla),       *)
(* connections (reference counted), stream-management states that the program  *)
(* took out of a connection, and contexts.  What the allocator sees is a       *)
(* sequence of calls; the blocks that a call leaves allocated are its "birth", *)
(* which is owned by the objects the call made or changed.                     *)
(*   - a birth keeps blocks only while one of its owners is referenced,        *)
(*   - a block is freed only in a call that deals with one of its owners,      *)
(*   - no block is freed twice, foreign, or from elsewhere than the allocator, *)
(*   - releasing says whether it was the last reference,                       *)
(*   - a referenced stanza reads as it was.                                    *)
EXTENDS Stanza, TLC
KB == 100000
MB == 200000
CB == 300000
SlotSet == 0..63
Own0 == [S |-> SInit, k |-> <<>>, m |-> <<>>, ks |-> [i \in SlotSet |-> 0], ms |-> [i \in SlotSet |-> 0],
         c |-> {}, B |-> <<>>, off |-> 0]
Alive(s, o) == IF o < KB THEN s.S.h[o].ref > 0
               ELSE IF o < MB THEN s.k[o - KB].ref > 0
               ELSE IF o < CB THEN s.m[o - MB] = 1
               ELSE o - CB \in s.c
Conns(s, c) == {KB + i : i \in {i \in 1..Len(s.k) : s.k[i].ref > 0 /\ s.k[i].c = c}}

(* blocks *)
RECURSIVE Blocks(_, _, _, _, _)
Blocks(B, d, i, touch, made) ==
  IF i > Len(d) THEN [B |-> B, why |-> ""]
  ELSE LET x == d[i]
           J == {j \in 1..Len(B) : B[j].b = x[2]}
           j == CHOOSE j \in J : TRUE
       IN IF x[3] > 0 THEN
            IF made = {} THEN [B |-> B, why |-> "memory is kept by a call that makes nothing"]
            ELSE IF J = {} THEN Blocks(Append(B, [b |-> x[2], own |-> made, n |-> x[3]]), d, i + 1, touch, made)
            ELSE Blocks([B EXCEPT ![j].n = @ + x[3], ![j].own = @ \cup made], d, i + 1, touch, made)
          ELSE IF J = {} THEN [B |-> B, why |-> "blocks are freed which were not allocated"]
          ELSE IF B[j].own \cap touch = {} THEN [B |-> B, why |-> "blocks of another object were freed"]
          ELSE IF B[j].n + x[3] < 0 THEN [B |-> B, why |-> "more blocks are freed than allocated"]
          ELSE Blocks([B EXCEPT ![j].n = @ + x[3]], d, i + 1, touch, made)
(* objects o2 also own what o1 owns *)
Share(B, o1, O2) == [j \in 1..Len(B) |-> IF o1 \in B[j].own THEN [B[j] EXCEPT !.own = @ \cup O2] ELSE B[j]]
Give(B, o1, o2) == [j \in 1..Len(B) |-> IF o1 \in B[j].own THEN [B[j] EXCEPT !.own = (@ \ {o1}) \cup {o2}] ELSE B[j]]

(* nodes below x *)
RECURSIVE Below(_, _)
Below(h, x) == {x} \cup UNION {Below(h, h[x].ch[i]) : i \in 1..Len(h[x].ch)}
RECURSIVE ImportD(_, _, _), ImportDKids(_, _, _, _)
ImportD(h, t, par) ==
  LET me == Len(h) + 1
      n == IF t.k = "t" THEN Node("txt", t.txt, {}) ELSE Node("tag", t.n, {<<t.at[i][1], t.at[i][2]>> : i \in 1..Len(t.at)})
      h1 == Append(h, [n EXCEPT !.par = par])
  IN IF t.k = "t" THEN h1 ELSE ImportDKids(h1, me, t.ch, 1)
ImportDKids(h, me, c, i) ==
  IF i > Len(c) THEN h ELSE ImportDKids([ImportD(h, c[i], me) EXCEPT ![me].ch = Append(@, Len(h) + 1)], me, c, i + 1)
Creators == {"new", "parse", "copy", "reply", "replyerr", "message", "iq", "presence", "error"}
Readers == {"clone", "alias", "forget", "release", "info", "get", "gettext", "getbody", "find", "render", "tree"}

Q(s, touch, made, why) == [s |-> s, touch |-> touch, made |-> made, why |-> why]
Sem(s, e) ==
  CASE e.e = "s" ->
         LET o == e.o
             r == Exec(s.S, o)
             U == {s.S.sl[i] : i \in Uses(o)} \ {0}
             T == UNION {Below(s.S.h, x) : x \in U}
             Nw == Len(s.S.h)+1..Len(r.s.h)
             made == Nw \cup (IF o.op \in Creators \cup Readers THEN {} ELSE {s.S.sl[o.i]} \ {0}) \cup (IF o.op = "add" THEN {s.S.sl[o.j]} ELSE {})
         IN IF r.why = "outside" THEN Q([s EXCEPT !.off = 1], {}, {}, "")
            ELSE IF r.why = "program error" THEN Q(s, {}, {}, r.why)
            ELSE Q([s EXCEPT !.S = r.s], T \cup Nw, made, IF r.why # "ok" /\ o.op \in {"tree", "release", "alias"} THEN r.why ELSE "")
    [] e.e = "wire" ->
         LET h == ImportD(s.S.h, e.tree, 0)
             Nw == Len(s.S.h)+1..Len(h)
             k == KB + s.ks[e.k]
         IN IF s.ks[e.k] = 0 THEN Q(s, {}, {}, "program error")
            ELSE Q([s EXCEPT !.S = Put(s.S, h, e.i, Len(s.S.h) + 1), !.B = Share(@, k, Nw)], {k}, {}, "")
    [] e.e = "ctx" -> Q([s EXCEPT !.c = @ \cup {e.c}], {CB + e.c}, {CB + e.c}, "")
    [] e.e = "ctxop" -> Q(s, {CB + e.c}, {CB + e.c}, "")
    [] e.e = "ctxfree" ->
         Q([s EXCEPT !.c = @ \ {e.c}], {CB + e.c}, {},
           IF e.bad > 0 THEN "a block was freed twice"
           ELSE IF e.live > 0 THEN "blocks are left when everything was released"
           ELSE IF e.ai > 0 THEN "results of the resolver are left" ELSE "")
    [] e.e = "knew" ->
         LET n == Len(s.k) + 1 IN
         IF s.ks[e.k] # 0 /\ s.k[s.ks[e.k]].ref > 0 THEN Q(s, {}, {}, "program error")
         ELSE Q([s EXCEPT !.k = Append(@, [ref |-> 1, c |-> e.c]), !.ks[e.k] = n], {KB + n, CB + e.c}, {KB + n}, "")
    [] e.e \in {"kop", "kclone", "krel", "getsm", "setsm"} ->
         LET i == s.ks[e.k]
             k == KB + i
         IN IF i = 0 THEN Q(s, {}, {}, "program error")
            ELSE IF s.k[i].ref = 0 THEN Q(s, {}, {}, "program error")
            ELSE IF e.e = "kop" THEN Q(s, {k}, {k}, "")
            ELSE IF e.e = "kclone" THEN Q([s EXCEPT !.k[i].ref = @ + 1], {k}, {k}, IF e.same = 1 THEN "" ELSE "a clone is another object")
            ELSE IF e.e = "krel" THEN
              Q([s EXCEPT !.k[i].ref = @ - 1], {k, CB + s.k[i].c}, IF s.k[i].ref > 1 THEN {k} ELSE {},
                IF e.freed = (IF s.k[i].ref = 1 THEN 1 ELSE 0) THEN "" ELSE "release does not report whether the object was freed")
            ELSE IF e.e = "getsm" THEN
              LET old == s.ms[e.m]
                  n == Len(s.m) + 1
                  s1 == IF old # 0 THEN [s EXCEPT !.m[old] = 0, !.ms[e.m] = 0] ELSE s
                  t == {k} \cup (IF old # 0 THEN {MB + old} ELSE {})
              IN IF e.ok = 0 THEN Q(s1, t, {k}, "")
                 ELSE Q([s1 EXCEPT !.m = Append(@, 1), !.ms[e.m] = n, !.B = Share(@, k, {MB + n})], t \cup {MB + n}, {k, MB + n}, "")
            ELSE LET n == s.ms[e.m] IN      \* setsm
                 IF n = 0 THEN Q(s, {k}, {k}, "")
                 ELSE IF e.rc # 0 THEN Q(s, {k}, {k}, "")
                 ELSE Q([s EXCEPT !.m[n] = 0, !.ms[e.m] = 0, !.B = Give(@, MB + n, k)], {k, MB + n}, {k}, "")
    [] e.e = "freesm" -> LET n == s.ms[e.m] IN
         IF n = 0 THEN Q(s, {}, {}, "") ELSE Q([s EXCEPT !.m[n] = 0, !.ms[e.m] = 0], {MB + n}, {}, "")
    [] e.e = "run" -> LET C == Conns(s, e.c) IN Q(s, C \cup {CB + e.c}, IF C = {} THEN {CB + e.c} ELSE C, "")
    [] e.e = "pure" -> Q(s, {}, {}, "")
    [] e.e = "bypass" -> Q(s, {}, {}, IF e.fn = "expat" /\ e.first = 0 THEN "" ELSE "memory is taken from elsewhere than the allocator of the context")
    [] e.e = "badfree" -> Q(s, {}, {}, "a block was freed twice, or one of another allocator")
    [] OTHER -> Q(s, {}, {}, "unknown event")

Step(s, e) ==
  IF s.off = 1 THEN [ok |-> IF e.e = "ctxfree" THEN Sem(s, e).why ELSE "", s |-> s]
  ELSE LET q == Sem(s, e)
           w == Blocks(q.s.B, e.d, 1, q.touch, q.made)
           B == SelectSeq(w.B, LAMBDA b : b.n > 0)
           s1 == [q.s EXCEPT !.B = B]
           lost == {j \in 1..Len(B) : \A o \in B[j].own : ~Alive(s1, o)}
       IN [ok |-> IF q.why # "" THEN q.why
                  ELSE IF s1.off = 1 THEN ""
                  ELSE IF w.why # "" THEN w.why
                  ELSE IF lost # {} THEN "blocks of a released object are not returned"
                  ELSE "",
           s |-> s1]
=============================================================================

------------------------------ MODULE ModelOwn ------------------------------
(* Two connections, one stream-management state outside of them and two stanza *)
(* handles.  A cell is a block: where it was born, what holds it.  The design    *)
(* frees by reference counts and hands cells over; Own.tla watches what each      *)
(* call allocates and frees.  Held: exactly the cells that something which the    *)
(* program references can reach exist.  Mut breaks the design.                    *)
EXTENDS Own
CONSTANTS MaxMoves, Exp, Mut
VARIABLES K, M, H, cells, nid, n, W, bad, hist
vars == <<K, M, H, cells, nid, n, W, bad>>
KS == {0, 1}
HS == {1, 2}
(* K: connection [ref, st, sm]; M: 1 if a state is held; H: handle -> node (0 none); *)
(* cell: [id, b, t, o]; t kind: conn q smo smq h par node; o: connection, -1 (M) or node *)
K0 == [ref |-> 0, st |-> "off", sm |-> 0, up |-> 0]
Cell(t, o) == [id |-> nid + 1, b |-> n + 1, t |-> t, o |-> o]
Of(k) == {c \in cells : c.t # "node" /\ c.o = k}
Count(C, b) == Cardinality({c \in C : c.b = b})
RECURSIVE Seqd(_, _)
Seqd(C2, S) == IF S = {} THEN <<>>
  ELSE LET b == CHOOSE b \in S : TRUE
           d == Count(C2, b) - Count(cells, b)
       IN (IF d = 0 THEN <<>> ELSE <<<<0, b, d>>>>) \o Seqd(C2, S \ {b})
Delta(C2) == Seqd(C2, {c.b : c \in cells \cup C2})
(* the call e turns the cells into C2 *)
Call(e, C2, mv) ==
  LET r == Step(W, e @@ [d |-> Delta(C2)]) IN
  /\ W' = r.s /\ bad' = (IF bad = "" THEN r.ok ELSE bad)
  /\ cells' = C2 /\ n' = n + 1 /\ nid' = nid + 2
  /\ hist' = IF Exp THEN Append(hist, mv) ELSE hist
Init == /\ K = [k \in KS |-> K0] /\ M = 0 /\ H = [h \in HS |-> 0]
        /\ cells = {} /\ nid = 0 /\ n = 0 /\ hist = <<>> /\ bad = ""
        /\ W = Step(Own0, [e |-> "ctx", c |-> 0, d |-> <<>>]).s
Live(k) == K[k].ref > 0
KNew(k) == /\ ~Live(k) /\ K' = [K EXCEPT ![k] = [K0 EXCEPT !.ref = 1]]
          /\ Call([e |-> "knew", k |-> k, c |-> 0], cells \cup {Cell("conn", k)}, <<"new", k>>) /\ UNCHANGED <<M, H>>
Clone(k) == /\ Live(k) /\ K[k].ref < 2 /\ K' = [K EXCEPT ![k].ref = 2]
            /\ Call([e |-> "kclone", k |-> k, same |-> 1], cells, <<"clone", k>>) /\ UNCHANGED <<M, H>>
Rel(k) == /\ Live(k)
          /\ LET last == K[k].ref = 1
                 gone == IF ~last THEN {} ELSE IF Mut = "keepq" THEN {c \in Of(k) : c.t # "smq"} ELSE Of(k)
             IN /\ K' = [K EXCEPT ![k] = IF last THEN K0 ELSE [@ EXCEPT !.ref = @ - 1]]
                /\ Call([e |-> "krel", k |-> k, freed |-> IF last THEN 1 ELSE 0], cells \ gone, <<"rel", k>>)
          /\ UNCHANGED <<M, H>>
(* connecting drops what an earlier attempt left *)
Dial(k) == /\ Live(k) /\ K[k].st = "off" /\ K' = [K EXCEPT ![k].st = "neg"]
           /\ Call([e |-> "kop", k |-> k],
                   IF Mut = "lostpar" /\ \E c \in Of(k) : c.t = "par" THEN {IF c.t = "par" /\ c.o = k THEN [c EXCEPT !.o = 7] ELSE c : c \in cells}
                   ELSE {c \in cells : c.t \notin {"q", "par"} \/ c.o # k}, <<"dial", k>>)
           /\ UNCHANGED <<M, H>>
Est(k) == /\ Live(k) /\ K[k].st = "neg" /\ K' = [K EXCEPT ![k].st = "up", ![k].sm = 1]
          /\ Call([e |-> "run", c |-> 0], IF K[k].sm = 1 THEN cells ELSE cells \cup {Cell("smo", k)}, <<"up", k>>) /\ UNCHANGED <<M, H>>
Lose(k, how) == /\ Live(k) /\ K[k].st # "off" /\ K' = [K EXCEPT ![k].st = "off"]
                /\ Call([e |-> "run", c |-> 0], cells, <<how, k>>) /\ UNCHANGED <<M, H>>
Send(k) == /\ Live(k) /\ K[k].st = "up" /\ Cardinality({c \in Of(k) : c.t = "q"}) < 2
           /\ Call([e |-> "kop", k |-> k], cells \cup {Cell("q", k)}, <<"send", k>>) /\ UNCHANGED <<K, M, H>>
Wrote(k) == /\ Live(k) /\ K[k].st = "up" /\ \E c \in Of(k) : c.t = "q"
            /\ Call([e |-> "run", c |-> 0], {IF c.t = "q" /\ c.o = k THEN [c EXCEPT !.t = "smq"] ELSE c : c \in cells}, <<"run", k>>) /\ UNCHANGED <<K, M, H>>
Ack(k) == /\ Live(k) /\ K[k].st = "up" /\ \E c \in Of(k) : c.t = "smq"
          /\ Call([e |-> "run", c |-> 0], {c \in cells : c.t # "smq" \/ (IF Mut = "ackall" THEN FALSE ELSE c.o # k)}, <<"ack", k>>) /\ UNCHANGED <<K, M, H>>
Part(k) == /\ Live(k) /\ K[k].st = "up" /\ ~\E c \in Of(k) : c.t = "par"
           /\ Call([e |-> "run", c |-> 0], cells \cup {Cell("par", k)}, <<"part", k>>) /\ UNCHANGED <<K, M, H>>
(* the stanza is complete: a handler keeps it (h) or it goes *)
Tree == [k |-> "e", n |-> <<97>>, at |-> <<>>, ch |-> <<>>]
Whole(k, h) ==
  /\ Live(k) /\ K[k].st = "up" /\ \E c \in Of(k) : c.t = "par"
  /\ IF h = 0 THEN Call([e |-> "run", c |-> 0], {c \in cells : c.t # "par" \/ c.o # k}, <<"whole", k, 0>>) /\ H' = H
     ELSE /\ H[h] = 0
          /\ H' = [H EXCEPT ![h] = Len(W.S.h) + 1]
          /\ Call([e |-> "wire", i |-> h, k |-> k, tree |-> Tree],
                  {IF c.t = "par" /\ c.o = k THEN [c EXCEPT !.t = "node", !.o = Len(W.S.h) + 1] ELSE c : c \in cells}, <<"whole", k, h>>)
  /\ UNCHANGED <<K, M>>
O(op, i, j) == [op |-> op, i |-> i, j |-> j, ok |-> 1, rc |-> 0, freed |-> 0]
SClone(h, g) == /\ H[h] # 0 /\ H[g] = 0 /\ H' = [H EXCEPT ![g] = H[h]]
                /\ Call([e |-> "s", o |-> O("clone", g, h)], cells, <<"sclone", h, g>>) /\ UNCHANGED <<K, M>>
SCopy(h, g) == /\ H[h] # 0 /\ H[g] = 0 /\ H' = [H EXCEPT ![g] = Len(W.S.h) + 1]
               /\ Call([e |-> "s", o |-> O("copy", g, h)], cells \cup {Cell("node", Len(W.S.h) + 1)}, <<"scopy", h, g>>) /\ UNCHANGED <<K, M>>
SRel(h) == /\ H[h] # 0 /\ H' = [H EXCEPT ![h] = 0]
           /\ LET last == \A g \in HS \ {h} : H[g] # H[h] IN
              Call([e |-> "s", o |-> [O("release", h, 0) EXCEPT !.freed = IF last THEN 1 ELSE 0]],
                   {c \in cells : c.t # "node" \/ c.o # H[h] \/ ~(last \/ Mut = "early")}, <<"srel", h>>) /\ UNCHANGED <<K, M>>
Hadd(k) == /\ Live(k) /\ ~\E c \in Of(k) : c.t = "h"
           /\ Call([e |-> "kop", k |-> k], cells \cup {Cell("h", k)}, <<"hadd", k>>) /\ UNCHANGED <<K, M, H>>
Sub(C, o, o2) == {IF c.t \in {"smo", "smq"} /\ c.o = o THEN [c EXCEPT !.o = o2] ELSE c : c \in C}
Get(k) == /\ Live(k) /\ K[k].st = "off" /\ K[k].sm = 1 /\ M = 0
          /\ M' = 1 /\ K' = [K EXCEPT ![k].sm = IF Mut = "nodetach" THEN 1 ELSE 0]
          /\ Call([e |-> "getsm", k |-> k, m |-> 0, ok |-> 1], IF Mut = "nodetach" THEN cells ELSE Sub(cells, k, -1), <<"get", k>>) /\ UNCHANGED H
Set(k) == /\ Live(k) /\ K[k].st = "off" /\ K[k].sm = 0 /\ M = 1
          /\ M' = 0 /\ K' = [K EXCEPT ![k].sm = 1]
          /\ Call([e |-> "setsm", k |-> k, m |-> 0, rc |-> 0], Sub(cells, -1, k), <<"set", k>>) /\ UNCHANGED H
FreeM == /\ M = 1 /\ M' = 0
         /\ Call([e |-> "freesm", m |-> 0], IF Mut = "nodetach" THEN {c \in cells : c.t # "smo"} ELSE {c \in cells : c.o # -1}, <<"freem">>) /\ UNCHANGED <<K, H>>
Next == /\ n < MaxMoves /\ bad = ""
        /\ \/ \E k \in KS : KNew(k) \/ Clone(k) \/ Rel(k) \/ Dial(k) \/ Est(k) \/ Lose(k, "eof") \/ Lose(k, "bye") \/ Send(k) \/ Wrote(k)
                            \/ Ack(k) \/ Part(k) \/ (\E h \in {0} \cup HS : Whole(k, h)) \/ Hadd(k) \/ Get(k) \/ Set(k)
           \/ \E h \in HS : SRel(h) \/ \E g \in HS \ {h} : SClone(h, g) \/ SCopy(h, g)
           \/ FreeM
Held == /\ bad = ""
        /\ \A c \in cells : IF c.t = "node" THEN \E h \in HS : H[h] = c.o
                            ELSE IF c.o = -1 THEN M = 1 ELSE c.o \in KS /\ Live(c.o)
        /\ \A h \in HS : H[h] # 0 => \E c \in cells : c.t = "node" /\ c.o = H[h]
        /\ \A k \in KS : Live(k) => (K[k].sm = 1 <=> \E c \in cells : c.t = "smo" /\ c.o = k)
        /\ \A c1, c2 \in cells : c1.id = c2.id => c1 = c2
        (* the observer forgets nothing that exists, and knows of nothing else *)
        /\ \A b \in {c.b : c \in cells} \cup {W.B[j].b : j \in 1..Len(W.B)} :
             Count(cells, b) = (LET J == {j \in 1..Len(W.B) : W.B[j].b = b} IN IF J = {} THEN 0 ELSE W.B[CHOOSE j \in J : TRUE].n)
View == <<K, M, H, {<<c.b, c.t, c.o>> : c \in cells}, n, W, bad>>
Export == IF Exp /\ n = MaxMoves THEN PrintT(<<"PROG", hist>>) ELSE TRUE
=============================================================================

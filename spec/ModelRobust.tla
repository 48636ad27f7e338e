----------------------------- MODULE ModelRobust ------------------------------
(* A client that negotiates (header, features, one restart, features, connected)  *)
(* with a parser of its own which is restarted one loop after the element that     *)
(* asks for it, against a server which says the right thing (G), something out of   *)
(* place (W), broken XML (B), half an element (P), the end of the stream (X), up to  *)
(* two of these in one piece, or goes away.  It is watched by Robust.tla.  Mut        *)
(* breaks the client.                                                                 *)
EXTENDS Robust
CONSTANTS MaxMoves, Exp, Mut
VARIABLES c, S, bad, n, hist
vars == <<c, S, bad, n>>
(* st: off, neg, up; stage: 0 header, 1 features, 2 restart asked for, 3 header, 4 features, 5 connected    *)
(* p: parser: new, open, part (inside a tag), dead, over; rst: restart pending; g: loops until the grace ends *)
C0 == [st |-> "off", stage |-> 0, p |-> "new", rst |-> FALSE, wr |-> FALSE, clo |-> FALSE, g |-> 0, fd |-> 0]
bH == <<60, 115, 62>>                 \* <s>
bG == <<60, 103, 47, 62>>             \* <g/>
bW == <<60, 119, 47, 62>>             \* <w/>
bB == <<60, 47, 98, 62>>              \* </b>
bP == <<60, 112>>                     \* <p
bX == <<60, 47, 115, 62>>             \* </s>
bM == <<60, 109, 47, 62>>             \* <m/>
bZ == <<39, 62, 60, 47, 122, 62>>     \* '></z>
Bytes(y) == CASE y = "H" -> bH [] y = "G" -> bG [] y = "W" -> bW [] y = "B" -> bB [] y = "P" -> bP [] y = "X" -> bX [] y = "M" -> bM [] y = "Z" -> bZ
P3(d) == CASE d.st = "off" -> <<0, 0, 1>> [] d.st = "up" -> <<0, 1, 0>> [] OTHER -> <<1, 0, 0>>
(* results: [c: client, ev: events]                                          *)
R(d, e) == [c |-> d, ev |-> e]
Cb(d, k) == [e |-> "cb", ce |-> k, p |-> P3(d)]
Off(d) == LET x == [C0 EXCEPT !.fd = d.fd, !.p = IF Mut = "stale" THEN d.p ELSE "new"] IN
          R(x, IF Mut = "twice" /\ d.clo THEN <<Cb(x, "disconnect"), Cb(x, "disconnect")>> ELSE IF Mut = "silent" /\ d.p = "dead" THEN <<>> ELSE <<Cb(x, "disconnect")>>)
Broken(d) == IF Mut = "deaf" THEN R([d EXCEPT !.p = "dead"], <<>>)
             ELSE IF d.clo THEN R([d EXCEPT !.p = "dead"], <<>>)
             ELSE R([d EXCEPT !.p = "dead", !.clo = TRUE, !.g = 2, !.wr = FALSE], <<[e |-> "close"]>>)
(* one symbol in the parser *)
Sym(d, y) ==
  CASE d.st = "off" \/ d.p \in {"dead", "over"} -> R(d, <<>>)
    [] d.p = "part" -> IF y = "P" \/ y = "W" \/ y = "G" \/ y = "M" \/ y = "X" \/ y = "H" \/ y = "B" \/ y = "Z" THEN Broken(d) ELSE R(d, <<>>)
    [] y = "H" -> IF d.p = "new" THEN R([d EXCEPT !.p = "open", !.stage = IF @ \in {0, 3} THEN @ + 1 ELSE @], <<>>) ELSE R(d, <<>>)
    [] d.p = "new" -> IF y \in {"B", "X", "Z"} THEN Broken(d) ELSE IF y = "P" THEN R([d EXCEPT !.p = "part"], <<>>)
                      ELSE Broken(d)                           \* the root element isn't a stream
    [] y = "G" -> IF d.clo THEN R(d, <<>>)
                  ELSE IF d.stage = 1 THEN R([d EXCEPT !.stage = 2, !.rst = TRUE, !.wr = TRUE], <<>>)
                  ELSE IF d.stage = 4 THEN LET x == [d EXCEPT !.stage = 5, !.st = "up"] IN R(x, <<Cb(x, "connect")>>)
                  ELSE R(d, <<>>)
    [] y = "W" -> R(d, <<>>)
    [] y = "M" -> R(d, <<[e |-> "got"]>>)
    [] y \in {"B", "Z"} -> Broken(d)
    [] y = "P" -> R([d EXCEPT !.p = "part"], <<>>)
    [] y = "X" -> Off(d)
(* a header inside of an open stream is an element that never ends: the model keeps away from it *)
May(d, y) == /\ y = "H" => d.p = "new"
             /\ d.p = "new" => y \in {"H", "B", "P", "X"}
RECURSIVE Piece(_, _)
Piece(d, ys) == IF ys = <<>> THEN R(d, <<>>)
  ELSE LET a == Sym(d, Head(ys))  b == Piece(a.c, Tail(ys)) IN R(b.c, a.ev \o b.ev)
RECURSIVE Cat(_)
Cat(ys) == IF ys = <<>> THEN <<>> ELSE Bytes(Head(ys)) \o Cat(Tail(ys))
Rd(d, ys) == LET r == Piece(d, ys) IN R(r.c, <<[e |-> "rd", fd |-> d.fd, b |-> Cat(ys), unk |-> 0, bad |-> 0]>> \o r.ev)
(* one loop: what is queued is written, the parser restarted, grace periods end *)
Loop(d) ==
  IF d.st = "off" THEN R(d, <<>>)
  ELSE LET e1 == IF d.wr THEN <<[e |-> "open", fd |-> d.fd]>> ELSE <<>>
           d1 == [d EXCEPT !.wr = FALSE, !.rst = FALSE, !.stage = IF @ = 2 /\ d.wr THEN 3 ELSE @,
                           !.p = IF d.rst /\ d.wr /\ Mut # "noreset" THEN "new" ELSE @]
       IN IF d1.clo THEN (IF d1.g = 0 THEN LET o == Off(d1) IN R(o.c, e1 \o o.ev) ELSE R([d1 EXCEPT !.g = @ - 1], e1)) ELSE R(d1, e1)
UDisc(d) == IF d.st = "off" \/ d.clo THEN R(d, <<>>) ELSE IF Mut = "stuck" /\ d.p = "part" THEN R(d, <<>>) ELSE R([d EXCEPT !.clo = TRUE, !.g = 2, !.wr = FALSE], <<[e |-> "close"]>>)
Dial(d) == IF d.st # "off" THEN R(d, <<[e |-> "dial", rc |-> -1, fd |-> 0, must |-> 0]>>)
           ELSE R([d EXCEPT !.st = "neg", !.fd = @ + 1, !.wr = TRUE, !.rst = Mut # "stale"], <<[e |-> "dial", rc |-> 0, fd |-> d.fd + 1, must |-> 1]>>)
Then(a, f(_)) == LET b == f(a.c) IN R(b.c, a.ev \o b.ev)
Mk(a, k) == R(a.c, Append(a.ev, [e |-> "mark", k |-> k, brk |-> 1]))
Wait(a) == Then(Then(Then(Then(a, Loop), Loop), Loop), Loop)
SaysM(d) == IF d.st = "off" \/ ~May(d, "M") THEN R(d, <<>>) ELSE Rd(d, <<"M">>)
SaysX(d) == IF d.st = "off" THEN R(d, <<>>) ELSE Rd(d, <<"X">>)
SaysZ(d) == IF d.st = "off" THEN R(d, <<>>) ELSE Rd(d, <<"Z">>)
SaysG(d) == IF d.st = "off" THEN R(d, <<>>) ELSE Rd(d, <<"G">>)
SaysH(d) == IF d.st = "off" THEN R(d, <<>>) ELSE Rd(d, <<"H">>)
Goes(d) == IF d.st = "off" \/ d.clo THEN R(d, <<>>) ELSE R(d, <<[e |-> "sent"]>>)
Probe(d) == Mk(Then(Then(Mk(R(d, <<>>), "probe0"), SaysM), Goes), "probe1")
End(d) == Mk(Then(Mk(Then(R(d, <<>>), SaysX), "end1"), LAMBDA x : Wait(R(x, <<>>))), "late")
Break(d) == Mk(Wait(Then(R(d, <<>>), SaysZ)), "late")
User(d) == Mk(Wait(Then(R(d, <<>>), UDisc)), "udisc1")
Again(d) == LET a == Mk(R(d, <<>>), "again0")
                b == Then(Then(Then(Then(Then(Then(a, Dial), Loop), SaysH), SaysG), Loop), SaysH)
            IN Mk(Then(b, SaysG), "again1")
RECURSIVE Run(_, _, _)
Run(s, es, i) == IF i > Len(es) THEN [s |-> s, ok |-> ""]
  ELSE LET r == Step(s, es[i]) IN IF r.ok = "" THEN Run(r.s, es, i + 1) ELSE [s |-> s, ok |-> r.ok]
Do(r, mv) == LET w == Run(S, r.ev \o <<[e |-> "pred", p |-> P3(r.c)]>>, 1) IN
             /\ c' = r.c /\ S' = w.s /\ bad' = w.ok /\ n' = n + 1 /\ hist' = IF Exp THEN Append(hist, mv) ELSE hist
Init == c = C0 /\ S = Rob0 /\ bad = "" /\ n = 0 /\ hist = <<>>
Ys == {"H", "G", "W", "B", "P", "X"}
Conn == c.st # "off"
Next == /\ n < MaxMoves /\ bad = ""
        /\ \/ Do(Dial(c), <<"dial">>)
           \/ /\ Conn /\ ~c.wr
              /\ \/ \E y \in Ys : May(c, y) /\ Do(Rd(c, <<y>>), <<"rd", y>>)
                 \/ \E y, z \in Ys : May(c, y) /\ May(Sym(c, y).c, z) /\ Do(Rd(c, <<y, z>>), <<"rd", y, z>>)
                 \/ LET o == Off(c) IN Do(R(o.c, <<[e |-> "gone", fd |-> c.fd]>> \o o.ev), <<"eof">>)
           \/ Conn /\ Do(Loop(c), <<"loop">>)
           \/ Conn /\ Do(UDisc(c), <<"disc">>)
           \/ Conn /\ ~c.wr /\ (Do(Probe(c), <<"probe">>) \/ Do(End(c), <<"end">>) \/ Do(Break(c), <<"break">>))
           \/ Conn /\ Do(User(c), <<"user">>)
           \/ ~Conn /\ Do(Again(c), <<"again">>)
Held == /\ bad = ""
        /\ S.att = Conn /\ (S.up <=> c.st = "up")
        (* broken XML never stays unnoticed, an open parser is the observer's too *)
        /\ (Conn /\ S.soft) => c.clo
        /\ (Conn /\ ~c.rst /\ ~S.soft /\ c.p = "open") => (S.x.m = "text" /\ Len(S.x.q) = 1)
View == <<c, S, bad, n>>
Export == IF Exp /\ n = MaxMoves THEN PrintT(<<"PROG", hist>>) ELSE TRUE
=============================================================================

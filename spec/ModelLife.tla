------------------------------ MODULE ModelLife ------------------------------
(* A client with the waits of the library against a server which answers, stays  *)
(* silent, reports an error or goes away at any time.  Checked: what the client   *)
(* does is a behaviour of Life.tla; a disconnected client is told so; a pending   *)
(* wait never survives its deadline.  One unit of time is a second.               *)
EXTENDS Life
CONSTANTS MaxMoves, MaxT, Exp
VARIABLES S, c, t, hist, bad, n
vars == <<S, c, t, hist, bad, n>>
Fates == {<<"ok">>, <<"wait">>, <<"wait", "ok">>, <<"bad", "ok">>, <<"wait", "bad">>, <<"bad", "wait", "ok">>}
Ticks == {1, 2, 4, 5, 14, 15}
Srv == {"open", "features", "success", "bindres", "sessres", "stanza", "serror", "close", "eof", "ws"}
Flags == {0, 1, 9}
E(k) == [e |-> k, t |-> t]
Ev(tt, r) == r @@ [t |-> tt]
P(ph) == IF ph = "off" THEN <<0, 0, 1>> ELSE IF ph = "up" THEN <<0, 1, 0>> ELSE <<1, 0, 0>>
DiscEv(tt, cc) == <<Ev(tt, [e |-> "cb", ce |-> "disconnect", p |-> <<0, 0, 1>>, se |-> cc.se, txt |-> cc.txt])>>
C0 == [ph |-> "off", at |-> 0, addrs |-> <<>>, i |-> 0, fa |-> FALSE, se |-> -1, txt |-> "-", nx |-> "", was |-> "", brk |-> FALSE, fd |-> 0]
Off(cc) == [C0 EXCEPT !.fd = cc.fd]
(* start with address i: those which fail at once are skipped                       *)
RECURSIVE Try(_, _, _)
Try(cc, i, tt) ==
  IF i > Len(cc.addrs) THEN [c |-> Off(cc), out |-> DiscEv(tt, cc)]
  ELSE LET f == cc.addrs[i]
           fd == cc.fd + 1
           c1 == [cc EXCEPT !.fd = fd]
           ev == <<Ev(tt, [e |-> "conn", fd |-> fd, st |-> f])>> IN
       IF f = "bad" THEN LET r == Try(c1, i + 1, tt) IN [c |-> r.c, out |-> ev \o <<Ev(tt, [e |-> "close", fd |-> fd])>> \o r.out]
       ELSE [c |-> [c1 EXCEPT !.ph = "conn", !.i = i, !.at = tt], out |-> ev]
Dead(cc, tt) == [c |-> Off(cc), out |-> <<Ev(tt, [e |-> "close", fd |-> cc.fd])>> \o DiscEv(tt, cc)]
Closing(cc, tt) == [c |-> [cc EXCEPT !.ph = "closing", !.at = tt, !.was = cc.ph], out |-> <<Ev(tt, [e |-> "tx", k |-> "close"])>>]
TxE(k, tt) == Ev(tt, [e |-> "tx", k |-> k])
Go(cc, ph, tt, k) == [c |-> [cc EXCEPT !.ph = ph, !.at = tt], out |-> <<TxE(k, tt)>>]
Same(cc) == [c |-> cc, out |-> <<>>]
Limit(ph) == CASE ph = "closing" -> 2 [] ph = "conn" -> 5 [] ph \in {"feat", "bind", "sess"} -> 15 [] OTHER -> 1000
(* what a turn of the loop does at time tt                                          *)
Turn(cc, tt) ==
  CASE cc.ph = "off" -> Same(cc)
    [] cc.ph = "conn" /\ cc.addrs[cc.i] = "ok" /\ tt <= cc.at + 5 -> [c |-> [cc EXCEPT !.ph = "hdr", !.at = tt], out |-> <<TxE("open", tt)>>]
    [] cc.ph = "conn" /\ tt > cc.at + 5 -> LET r == Try(cc, cc.i + 1, tt) IN [c |-> r.c, out |-> <<Ev(tt, [e |-> "close", fd |-> cc.fd])>> \o r.out]
    [] cc.ph = "closing" /\ tt >= cc.at + 2 -> Dead(cc, tt)
    [] cc.ph \in {"bind", "sess"} /\ tt >= cc.at + 15 -> Closing(cc, tt)
    [] cc.ph = "feat" /\ tt >= cc.at + 15 -> IF cc.fa THEN Closing(cc, tt) ELSE Go(cc, "auth", tt, "auth")
    [] OTHER -> Same(cc)
React(cc, k, tt) ==
  CASE cc.ph \in {"off", "conn"} -> Same(cc)
    [] k = "eof" -> Dead(cc, tt)
    [] cc.brk -> Same(cc)
    [] cc.ph = "hdr" /\ k # "open" -> LET r == Closing(cc, tt) IN [r EXCEPT !.c.brk = TRUE]
    [] cc.ph = "closing" /\ cc.was = "hdr" -> IF k = "open" THEN Same([cc EXCEPT !.was = "feat"]) ELSE Same([cc EXCEPT !.brk = TRUE])
    [] k = "open" /\ cc.ph # "hdr" -> IF cc.ph = "closing" THEN Same([cc EXCEPT !.brk = TRUE]) ELSE LET r == Closing(cc, tt) IN [r EXCEPT !.c.brk = TRUE]
    [] k = "close" -> Dead(cc, tt)
    [] k = "serror" -> Same([cc EXCEPT !.se = 2, !.txt = "x"])
    [] cc.ph = "closing" -> Same(cc)
    [] cc.ph = "hdr" -> Same([cc EXCEPT !.ph = "feat", !.at = tt])
    [] cc.ph = "feat" /\ k = "features" -> IF cc.fa THEN Go(cc, "bind", tt, "bind") ELSE Go(cc, "auth", tt, "auth")
    [] cc.ph = "auth" /\ k = "success" -> LET r == Go(cc, "hdr", tt, "open") IN [r EXCEPT !.c.fa = TRUE]
    [] cc.ph = "bind" /\ k = "bindres" -> Go(cc, "sess", tt, "session")
    [] cc.ph = "sess" /\ k = "sessres" -> [c |-> [cc EXCEPT !.ph = "up"], out |-> <<Ev(tt, [e |-> "cb", ce |-> "connect", p |-> <<0, 1, 0>>])>>]
    [] OTHER -> Same(cc)
RECURSIVE Play(_, _, _)
Play(s, evs, i) ==
  IF i > Len(evs) THEN [s |-> s, bad |-> ""]
  ELSE LET r == Step(s, evs[i]) IN IF r.ok # "" THEN [s |-> s, bad |-> r.ok] ELSE Play(r.s, evs, i + 1)
Pr(cc, tt) == <<Ev(tt, [e |-> "pred", p |-> IF cc.ph = "closing" /\ cc.was = "up" THEN <<0, 1, 0>> ELSE P(cc.ph)])>>
Do(evs, cc, tt, mv) ==
  LET r == Play(S, evs \o Pr(cc, tt), 1) IN
  S' = r.s /\ bad' = r.bad /\ c' = cc /\ t' = tt /\ n' = n + 1 /\ hist' = IF Exp THEN Append(hist, mv) ELSE hist
Init == S = [Init0 EXCEPT !.last = 0] /\ c = C0 /\ t = 0 /\ hist = <<>> /\ bad = "" /\ n = 0
Dial == \E a \in Fates : LET r == Try([C0 EXCEPT !.addrs = a, !.fd = c.fd], 1, t) IN
          /\ c.ph = "off"
          /\ Do(<<Ev(t, [e |-> "dial", rc |-> 0])>> \o r.out, r.c, t, <<"dial", a>>)
Busy == c.ph # "off" /\ Do(<<Ev(t, [e |-> "dial", rc |-> 1])>>, c, t, <<"redial">>)
Tick == \E d \in Ticks : LET r == Turn(c, t + d) IN
          /\ c.ph # "off" /\ t + d <= MaxT
          /\ Do(<<Ev(t + d, [e |-> "loop"])>> \o r.out, r.c, t + d, <<"tick", d>>)
Say == \E k \in Srv : LET r1 == Turn(c, t)
                          ev == IF k = "eof" THEN [e |-> "eof"] ELSE IF k = "serror" THEN [e |-> "rx", k |-> k, cond |-> "conflict", txt |-> "x"] ELSE [e |-> "rx", k |-> k]
                          r2 == React(r1.c, k, t) IN
          /\ c.ph \notin {"off", "conn"} /\ r1.c.ph \notin {"off", "conn"}
          /\ Do(<<Ev(t, [e |-> "loop"])>> \o r1.out \o <<Ev(t, ev)>> \o r2.out, r2.c, t, <<k>>)
User == /\ c.ph # "off"
        /\ LET r == IF c.ph = "conn" THEN Dead(c, t) ELSE IF c.ph = "closing" THEN Same(c) ELSE Closing(c, t) IN
           Do(<<E("udisc")>> \o r.out, r.c, t, <<"udisc">>)
SetF == \E w \in Flags : LET ok == c.ph = "off" /\ ~Conflict(w) IN
          Do(<<Ev(t, [e |-> "flags", w |-> w, rc |-> IF ok THEN 0 ELSE 1, got |-> IF ok THEN w ELSE S.flags])>>, c, t, <<"flags", w>>)
Next == bad = "" /\ n < MaxMoves /\ (Dial \/ Busy \/ Tick \/ Say \/ User \/ SetF)
Sound == bad = ""
Told == S.att <=> c.ph # "off"
UpOk == S.up <=> (c.ph = "up" \/ (c.ph = "closing" /\ c.was = "up"))
(* silence ends every wait: as long as time passes, nothing is pending longer       *)
Bounded == c.ph # "off" => t <= c.at + Limit(c.ph) + 15
Export == n = MaxMoves => PrintT(<<"PROG", hist>>)
(* times relative to now: two states which differ by a shift behave alike           *)
RelW == {[x EXCEPT !.lo = @ - t, !.hi = @ - t] : x \in S.w}
View == <<[S EXCEPT !.w = {}, !.fds = {}, !.last = 0, !.lt = 0, !.plt = 0, !.n = 0, !.mustn = 0, !.due = {}], RelW, S.lt - t, S.plt - t, S.last - t,
          {[x EXCEPT !.n = @ - S.n] : x \in S.due}, {[st |-> f.st, cl |-> f.cl, t |-> f.t - t] : f \in S.fds}, S.mustn - S.n,
          [c EXCEPT !.at = @ - t, !.fd = 0], bad, n>>
=============================================================================

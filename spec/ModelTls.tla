------------------------------ MODULE ModelTls ------------------------------
(* A client that performs the handshake, with the walk over the chain's errors  *)
(* and the callback, against Tls.tla's verdict: every cell of the table           *)
(* certificate x anchors x callback x trust flag x mode, two attempts in a row.  *)
(* Mut # "none" breaks the client in one way; TLC then has to find it.           *)
EXTENDS Tls, TLC
CONSTANTS Mut, NameKinds, Chains, AnchKinds, Exp
D == <<97, 98, 46, 99, 46, 100>>        \* "ab.c.d"
T == <<46, 99, 46, 100>>                \* ".c.d"
N(k) == CASE k = "exact" -> <<D>>
          [] k = "case" -> <<<<65, 98, 46, 67, 46, 100>>>>
          [] k = "wild" -> <<<<42>> \o T>>
          [] k = "wide" -> <<<<42, 46, 100>>>>
          [] k = "parent" -> <<Tail(T)>>
          [] k = "other" -> <<<<98, 98>> \o T>>
          [] k = "second" -> <<<<120>>, D>>
          [] k = "part" -> <<<<97, 42>> \o T>>
          [] k = "part2" -> <<<<42, 98>> \o T>>
          [] k = "deep" -> <<<<42, 46>> \o D>>
          [] k = "star" -> <<<<42>>>>
          [] k = "mid" -> <<<<97, 98, 46, 42, 46, 100>>>>
          [] k = "sub" -> <<<<120, 46>> \o D>>
          [] k = "suffix" -> <<D \o <<46, 100>>>>
          [] k = "nul" -> <<D \o <<0, 46, 100>>>>
          [] OTHER -> <<>>
CN(k) == CASE k = "cn" -> D
           [] k \in {"other", "part"} -> D
           [] OTHER -> <<120>>
AllKinds == {"exact", "case", "wild", "wide", "parent", "other", "second", "part", "part2", "deep", "star", "mid", "sub", "suffix", "nul", "cn", "none"}
FewKinds == {"exact", "wild", "other", "part", "cn"}
C(id, by, ca, t, names, cn) == [id |-> id, by |-> by, ca |-> ca, t |-> t, names |-> names, cn |-> cn]
Root == C(1, 1, 1, 0, <<>>, <<82>>)
Inter(t) == C(2, 1, 1, t, <<>>, <<73>>)
NoCa == C(3, 1, 0, 0, <<D>>, <<74>>)
Other == C(4, 4, 1, 0, <<>>, <<79>>)
Leaf(by, t, k) == C(9, by, 0, t, N(k), CN(k))
Chain(c, t, k) ==
    CASE c = "root" -> <<Leaf(1, t, k)>>
      [] c = "full" -> <<Leaf(1, t, k), Root>>
      [] c = "unknown" -> <<Leaf(0, t, k)>>
      [] c = "forged" -> <<Leaf(0, t, k), Root>>
      [] c = "other" -> <<Leaf(4, t, k), Other>>
      [] c = "self" -> <<Leaf(9, t, k)>>
      [] c = "inter" -> <<Leaf(2, t, k), Inter(0)>>
      [] c = "interold" -> <<Leaf(2, t, k), Inter(1)>>
      [] c = "missing" -> <<Leaf(2, t, k)>>
      [] c = "noca" -> <<Leaf(3, t, k), NoCa>>
AllChains == {"root", "full", "unknown", "forged", "other", "self", "inter", "interold", "missing", "noca"}
FewChains == {"root", "unknown", "self", "inter", "interold", "noca"}
Anch(a, ch) == CASE a = "root" -> <<Root>>
                 [] a = "none" -> <<>>
                 [] a = "wrong" -> <<Other>>
                 [] a = "pin" -> <<ch[1]>>
Cb == {<<>>, <<1>>, <<0>>, <<1, 0>>, <<0, 1>>}     \* <<>>: not installed; the last answer is repeated
Modes == {"starttls", "ssl", "raw"}
AllAnch == {"root", "none", "wrong", "pin"}
FewAnch == {"root", "none"}

VARIABLES cell, ph, errs, ans, S, bad, evs, round
vars == <<cell, ph, errs, ans, S, bad, evs, round>>
(* the errors in the order in which a verifier may find them                     *)
Walk(ch, an, trust) ==
    LET p == PathOf(ch, Range(an))
        tim == {i \in 1..Len(ch) : ch[i].t # 0 /\ (i = 1 \/ ch[i].id \in {x.id : x \in Range(p)})}
        e1 == IF p = <<>> THEN <<ch[Len(ch)].id>> ELSE <<>>
        e2 == IF Mut = "notime" THEN <<>> ELSE (IF 2 \in tim THEN <<ch[2].id>> ELSE <<>>) \o (IF 1 \in tim THEN <<ch[1].id>> ELSE <<>>)
        loose == \/ Mut = "nohost"
                 \/ Mut = "partial" /\ \E n \in Range(ch[1].names) : n = <<97, 42>> \o T
                 \/ Mut = "cn" /\ ch[1].cn = D
                 \/ Mut = "nul" /\ \E n \in Range(ch[1].names) : SubSeq(n, 1, Len(n)) = D \o <<0, 46, 100>>
        e3 == IF Names(ch[1], D) \/ loose THEN <<>> ELSE <<ch[1].id>>
    IN e1 \o e2 \o e3
RECURSIVE Run(_, _, _)
Run(s, es, b) == IF es = <<>> \/ b # "" THEN <<s, b>> ELSE LET r == TStep(s, es[1]) IN Run(r.s, Tail(es), r.ok)
Put(es) == LET r == Run(S, es, bad) IN S' = r[1] /\ bad' = r[2] /\ evs' = evs
Tx(k, sec) == [e |-> "tx", fd |-> round, k |-> k, sec |-> sec]
Pred(up, sec, disc) == [e |-> "pred", up |-> up, sec |-> sec, disc |-> disc]

Init == /\ \E c \in Chains, t \in {-1, 0, 1}, k \in NameKinds, a \in AnchKinds, cb \in Cb, tr \in {0, 1}, m \in Modes :
             cell = [c |-> c, t |-> t, k |-> k, a |-> a, cb |-> cb, trust |-> tr, mode |-> m]
        /\ ph = "idle" /\ errs = <<>> /\ ans = <<>> /\ S = TInit /\ bad = "" /\ evs = <<>> /\ round = 0
Ch == Chain(cell.c, cell.t, cell.k)
Dial == /\ ph = "idle" /\ round < 2
        (* the second attempt is made without callback or trust flag              *)
        /\ cell' = (IF round = 0 THEN cell ELSE [cell EXCEPT !.cb = <<>>, !.trust = 0])
        /\ round' = round + 1
        /\ ans' = cell'.cb
        /\ errs' = (IF cell'.trust = 1 \/ (round = 1 /\ Mut = "stick" /\ ans = <<1>>) THEN <<>> ELSE Walk(Ch, Anch(cell.a, Ch), 0))
        /\ Run(S, <<[e |-> "end"]>>, bad)[2] = ""
        /\ LET r == Run(TInit, <<[e |-> "dial", rc |-> 0, mode |-> cell.mode, trust |-> cell'.trust, cb |-> (IF cell'.cb = <<>> THEN 0 ELSE 1),
                      chain |-> Ch, anch |-> Anch(cell.a, Ch), dom |-> D, srv |-> 1], [e |-> "connect", fd |-> round + 1]>>, "")
           IN S' = r[1] /\ bad' = r[2] /\ evs' = evs
        /\ ph' = "tcp"
Start == /\ ph = "tcp" /\ ph' = "hs"
         /\ Put((IF cell.mode = "starttls" THEN <<Tx("open", 0), Tx("starttls", 0), [e |-> "proceed"]>> ELSE <<>>)
                 \o <<[e |-> "hello", fd |-> round]>> \o <<Pred(0, 0, 0)>>)
         /\ UNCHANGED <<cell, errs, ans, round>>
Fail == /\ IF cell.mode = "raw" THEN Put(<<[e |-> "rc", rc |-> 1], Pred(0, 0, 0), Tx("open", 0)>>) /\ ph' = "idle"
           ELSE IF Mut = "continue" THEN Put(<<Tx("auth", 0)>>) /\ ph' = "idle"
           ELSE IF Mut = "linger" THEN Put(<<Pred(0, 0, 0)>>) /\ ph' = "idle"
           ELSE Put((IF cell.mode = "starttls" THEN <<Tx("close", 0)>> ELSE <<>>)
                    \o <<[e |-> "close", fd |-> round], [e |-> "cb", ce |-> 2, sec |-> 0], Pred(0, 0, 1), [e |-> "end"]>>) /\ ph' = "idle"
        /\ UNCHANGED <<cell, errs, ans, round>>
Ask == /\ ph = "hs" /\ errs # <<>>
       /\ IF cell.cb = <<>> THEN (IF Mut = "nocb" THEN errs' = Tail(errs) /\ UNCHANGED <<cell, ph, ans, S, bad, evs, round>> ELSE Fail)
          ELSE LET a == ans[1] IN
               IF a = 0 /\ Mut # "ignore"
               THEN LET r == Run(S, <<[e |-> "certfail", id |-> errs[1], ans |-> 0]>>, bad) IN
                    /\ ph' = "no" /\ S' = r[1] /\ bad' = r[2] /\ UNCHANGED <<cell, errs, ans, evs, round>>
               ELSE /\ Put(<<[e |-> "certfail", id |-> errs[1], ans |-> a]>>)
                    /\ errs' = (IF Mut = "once" THEN <<>> ELSE Tail(errs))
                    /\ ans' = (IF Len(ans) > 1 THEN Tail(ans) ELSE ans)
                    /\ UNCHANGED <<cell, ph, round>>
Refused == ph = "no" /\ Fail
Done == /\ ph = "hs" /\ errs = <<>> /\ ph' = "idle"
        /\ Put((IF cell.mode = "raw" THEN <<[e |-> "rc", rc |-> 0]>> ELSE <<>>)
               \o <<Pred(0, 1, 0), Tx("open", 1), [e |-> "cb", ce |-> 0, sec |-> 1], Pred(1, 1, 0), Tx("close", 1),
                    [e |-> "close", fd |-> round], [e |-> "cb", ce |-> 2, sec |-> 0], Pred(0, 0, 1), [e |-> "end"]>>)
        /\ UNCHANGED <<cell, errs, ans, round>>
Next == Dial \/ Start \/ Ask \/ Refused \/ Done
Agrees == bad = ""
EndOk == ph = "idle" /\ round > 0 => Run(S, <<[e |-> "end"]>>, "")[2] = ""
(* the walk finds nothing exactly in good chains                                 *)
Honest == Mut = "none" => ((Walk(Ch, Anch(cell.a, Ch), 0) = <<>>) = Good(Ch, Range(Anch(cell.a, Ch)), D))
Export == Exp = 0 \/ round > 0 \/ PrintT(<<"PROG", cell.c, cell.t, cell.k, cell.a, cell.cb, cell.trust, cell.mode,
             Good(Ch, Range(Anch(cell.a, Ch)), D), N(cell.k), CN(cell.k)>>)
Stop == FALSE /\ UNCHANGED vars
Sym == <<cell, ph, errs, ans, S, bad, round>>
=============================================================================

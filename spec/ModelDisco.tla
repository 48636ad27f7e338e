----------------------------- MODULE ModelDisco -----------------------------
(* The library's algorithm - sort the records by insertion, walk targets and      *)
(* addresses, wait 5 s for each - refines Disco.tla for every combination of      *)
(* records, addresses and fates within the bounds; the first endpoint which       *)
(* accepts is used, and failure means that none of them would have accepted.      *)
EXTENDS Disco
CONSTANTS MaxR, Exp
VARIABLES cfg, S, l, cur, port, bad, t, ph, out
vars == <<cfg, S, l, cur, port, bad, t, ph, out>>
Fates == {"accept", "refuse", "late", "hang"}
Hosts == <<"h1", "h2", "h3">>
AddrSets == {<<>>} \cup {<<f>> : f \in Fates} \cup {<<f, g>> : f \in {"refuse", "late", "hang"}, g \in {"accept", "late", "hang"}}
Ip(h, i) == h \o "/" \o ToString(i)
Seqs(X, n) == UNION {[1..m -> X] : m \in 0..n}
SrvR == {[p |-> p, w |-> w, port |-> 5000 + p + w, t |-> h] : p \in {0, 1}, w \in {0, 1}, h \in {"h1", "h2", "h3"}}
(* insertion as in the library: before the first record that is not better          *)
RECURSIVE Ins(_, _), Sort(_)
Ins(x, q) == IF q = <<>> THEN <<x>> ELSE IF x.p < q[1].p \/ (x.p = q[1].p /\ x.w > q[1].w) THEN <<x>> \o q ELSE <<q[1]>> \o Ins(x, Tail(q))
Sort(q) == IF q = <<>> THEN <<>> ELSE Ins(q[1], Sort(Tail(q)))
Fate(ip) == LET h == CHOOSE h \in {1, 2, 3} : \E i \in 1..2 : ip = Ip(Hosts[h], i)
                i == CHOOSE i \in 1..2 : ip = Ip(Hosts[h], i) IN cfg.f[h][i]
Init == /\ cfg \in [srv : Seqs(SrvR, MaxR), f : [{1, 2, 3} -> AddrSets]]
        /\ \A h \in {1, 2, 3} : (~\E i \in 1..Len(cfg.srv) : cfg.srv[i].t = Hosts[h]) => cfg.f[h] = IF cfg.srv = <<>> /\ h = 1 THEN cfg.f[h] ELSE <<>>
        /\ LET hs == [h \in {1, 2, 3} |-> [h |-> Hosts[h], a |-> [i \in 1..Len(cfg.f[h]) |-> Ip(Hosts[h], i)]]]
               c == [kind |-> "client", lssl |-> 0, host |-> "-", port |-> 0, dom |-> "h1", srv |-> cfg.srv, hosts |-> hs, so |-> 0] IN
           /\ S = Step1(S0, [e |-> "dial", c |-> c]).s
           /\ l = Sort(Recs(c))
        /\ cur = <<>> /\ port = 0 /\ bad = "" /\ t = 0 /\ ph = "try" /\ out = "-"
Do(e) == LET r == Step1(S, e) IN S' = r.s /\ bad' = r.ok
Next ==
  /\ bad = "" /\ ph # "over" /\ cfg' = cfg
  /\ CASE ph = "try" /\ cur # <<>> ->
            LET f == Fate(cur[1]) IN
            /\ Do([e |-> "connect", ip |-> cur[1], port |-> port, fate |-> f, fd |-> 1, t |-> t])
            /\ cur' = Tail(cur) /\ out' = f
            /\ ph' = IF f = "accept" THEN "use" ELSE "try"
            /\ t' = IF f = "hang" THEN t + 5 * U + 1 ELSE IF f = "late" THEN t + 1 ELSE t
            /\ UNCHANGED <<l, port>>
       [] ph = "try" /\ cur = <<>> /\ l # <<>> ->
            cur' = Addrs(S.c, l[1].t) /\ port' = l[1].port /\ l' = Tail(l) /\ UNCHANGED <<S, bad, t, ph, out>>
       [] ph = "try" -> Do([e |-> IF S.in THEN "dialed" ELSE "disc", rc |-> IF out \in {"-", "refuse"} THEN 1 ELSE 0, t |-> t])
                        /\ ph' = (IF S.in /\ out \notin {"-", "refuse"} THEN "try" ELSE "over") /\ UNCHANGED <<l, cur, port, t, out>>
       [] OTHER -> Do([e |-> "use", fd |-> 1, t |-> t]) /\ ph' = "over" /\ out' = "used" /\ UNCHANGED <<l, cur, port, t>>
Sound == bad = ""
(* failure only if no endpoint of any record accepts                                *)
AnyAccept == \E i \in 1..Len(S.r) : \E h \in {1, 2, 3} : Hosts[h] = S.r[i].t /\ \E j \in 1..Len(cfg.f[h]) : cfg.f[h][j] = "accept"
Outcome == ph = "over" => ((out = "used") <=> AnyAccept)
Export == (Exp /\ ph = "over") => PrintT(<<"PROG", cfg>>)
=============================================================================

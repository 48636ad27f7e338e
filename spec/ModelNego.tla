------------------------------ MODULE ModelNego ------------------------------
(* A client that negotiates the way the library is designed to, against a server *)
(* that may say anything at any time.  Checked: the client never does anything    *)
(* Nego.tla forbids, and it is connected at most once.  The server's moves (hist) *)
(* are exported as scripts for the real client.                                   *)
EXTENDS Nego
CONSTANTS MaxMoves, Exp
VARIABLES S, cl, hist, bad, n
vars == <<S, cl, hist, bad, n>>
F(s) == [e |-> "rx", k |-> "features", f |-> s, opt |-> 0, lp |-> 0]
FSets == {<<"m:PLAIN">>, <<"m:PLAIN", "starttls">>, <<"starttls">>, <<"m:SCRAM-SHA-1", "m:PLAIN">>, <<"m:DIGEST-MD5", "starttls", "bind">>,
          <<"bind">>, <<"bind", "sm">>, <<"bind", "session", "sm">>, <<"bind", "zlib", "sm">>, <<"bind", "zlib">>, <<>>}
Kinds == {"open", "proceed", "tlsfailure", "success", "failure", "challenge", "compressed", "compfail", "bindres", "binderr",
          "sessres", "enabled", "resumed", "failed", "legres", "stanza", "close"}
Moves == {F(s) : s \in FSets} \cup {[e |-> "rx", k |-> k, lp |-> 0] : k \in Kinds}
Cfgs == {[Cfg0 EXCEPT !.dom = "d", !.node = "a", !.bare = "a@d", !.havepw = 1, !.cool = 1, !.dis = dm[1], !.mand = dm[2], !.legacy = l,
                      !.comp = z, !.nosm = q] : dm \in {<<0, 0>>, <<1, 0>>, <<0, 1>>}, l \in {0, 1}, z \in {0, 1}, q \in {0, 1}}
(* client: ph phase, m mechanisms left, sec, rs can resume, sm/sess remembered     *)
Cl0 == [ph |-> "hdr", nx |-> "feat", m |-> {}, t |-> FALSE, sec |-> FALSE, auth |-> "", rs |-> FALSE, sess |-> FALSE, sm |-> FALSE]
Tx(k) == [e |-> "tx", k |-> k, sec |-> 0, z |-> 0, pw |-> 0, lp |-> 5]
OpenTx(c, g) == [Tx("open") EXCEPT !.sec = IF c.sec THEN 1 ELSE 0] @@ [to |-> g.dom, frm |-> IF c.sec THEN g.bare ELSE "-", ns |-> "jabber:client"]
AuthTx(c, m) == [Tx("auth") EXCEPT !.sec = IF c.sec THEN 1 ELSE 0, !.pw = IF m = "PLAIN" THEN 1 ELSE 0] @@ [mech |-> m]
CC == [e |-> "cb", ce |-> "connect"]
CD == [e |-> "cb", ce |-> "disconnect"]
Dead(c, out) == [c |-> [c EXCEPT !.ph = "dead"], out |-> out \o <<CD>>]
Auth(c, g) ==
  IF c.t THEN [c |-> [c EXCEPT !.t = FALSE, !.ph = "tls"], out |-> <<Tx("starttls")>>]
  ELSE IF g.mand = 1 /\ ~c.sec THEN Dead(c, <<>>)
  ELSE IF "SCRAM-SHA-1" \in c.m THEN [c |-> [c EXCEPT !.m = @ \ {"SCRAM-SHA-1"}, !.ph = "auth", !.auth = "S"], out |-> <<AuthTx(c, "SCRAM-SHA-1")>>]
  ELSE IF "DIGEST-MD5" \in c.m THEN [c |-> [c EXCEPT !.m = @ \ {"DIGEST-MD5"}, !.ph = "auth", !.auth = "D"], out |-> <<AuthTx(c, "DIGEST-MD5")>>]
  ELSE IF "PLAIN" \in c.m THEN [c |-> [c EXCEPT !.m = @ \ {"PLAIN"}, !.ph = "auth", !.auth = "P"], out |-> <<AuthTx(c, "PLAIN")>>]
  ELSE IF g.legacy = 1 THEN [c |-> [c EXCEPT !.ph = "leg"], out |-> <<[Tx("legacy") EXCEPT !.pw = 1, !.sec = IF c.sec THEN 1 ELSE 0]>>]
  ELSE Dead(c, <<Tx("close")>>)
Mech(f) == {m \in {"PLAIN", "SCRAM-SHA-1", "DIGEST-MD5"} : \E i \in 1..Len(f) : f[i] = "m:" \o m}
Has2(f, x) == \E i \in 1..Len(f) : f[i] = x
BindTx == Tx("bind") @@ [res |-> "-"]
Post(c, g, f) ==
  LET c1 == [c EXCEPT !.sess = Has2(f, "session"), !.sm = @ \/ Has2(f, "sm")] IN
  IF c1.sm /\ g.nosm = 0 /\ c.rs THEN [c |-> [c1 EXCEPT !.ph = "res", !.auth = IF Has2(f, "bind") THEN "b" ELSE ""], out |-> <<Tx("resume")>>]
  ELSE IF Has2(f, "bind") THEN [c |-> [c1 EXCEPT !.ph = "bind"], out |-> <<BindTx>>]
  ELSE Dead(c1, <<Tx("close")>>)
Ready(c, g) == IF c.sm /\ g.nosm = 0 THEN [c |-> [c EXCEPT !.ph = "sm"], out |-> <<Tx("enable")>>] ELSE [c |-> [c EXCEPT !.ph = "up"], out |-> <<CC>>]
Same(c) == [c |-> c, out |-> <<>>]
React(c, g, e) ==
  CASE c.ph = "dead" -> Same(c)
    [] e.k = "close" -> Dead(c, <<>>)
    [] e.k = "open" -> IF c.ph = "hdr" THEN Same([c EXCEPT !.ph = c.nx]) ELSE Same(c)
    [] c.ph = "hdr" -> Same(c)
    [] c.ph \in {"feat", "tfeat"} /\ e.k = "features" ->
         LET m1 == c.m \cup Mech(e.f)
             m2 == IF m1 \ {"PLAIN"} # {} THEN m1 \ {"PLAIN"} ELSE m1
         IN Auth([c EXCEPT !.t = ~c.sec /\ g.dis = 0 /\ Has2(e.f, "starttls"), !.m = m2], g)
    [] c.ph = "tls" /\ e.k = "proceed" ->
         LET c1 == [c EXCEPT !.sec = TRUE, !.ph = "hdr", !.nx = "tfeat"] IN
         [c |-> c1, out |-> <<[e |-> "hello"], [e |-> "tls"], OpenTx(c1, g)>>]
    [] c.ph = "tls" /\ e.k = "tlsfailure" -> Dead(c, <<Tx("close")>>)
    [] c.ph = "auth" /\ e.k = "failure" -> Auth(c, g)
    [] c.ph = "auth" /\ e.k = "success" ->
         LET c1 == [c EXCEPT !.ph = "hdr", !.nx = IF g.comp = 1 THEN "zfeat" ELSE "sfeat"] IN [c |-> c1, out |-> <<OpenTx(c1, g)>>]
    [] c.ph = "auth" /\ e.k = "challenge" -> IF c.auth = "P" THEN Dead(c, <<Tx("close")>>) ELSE [c |-> c, out |-> <<[Tx("response") EXCEPT !.sec = IF c.sec THEN 1 ELSE 0]>>]
    [] c.ph = "zfeat" /\ e.k = "features" ->
         IF Has2(e.f, "zlib") THEN [c |-> [c EXCEPT !.ph = "z"], out |-> <<Tx("compress") @@ [method |-> "zlib"]>>] ELSE Post(c, g, e.f)
    [] c.ph = "z" /\ e.k = "compressed" -> LET c1 == [c EXCEPT !.ph = "hdr", !.nx = "sfeat"] IN [c |-> c1, out |-> <<OpenTx(c1, g)>>]
    [] c.ph = "z" /\ e.k = "compfail" -> Dead(c, <<Tx("close")>>)
    [] c.ph = "sfeat" /\ e.k = "features" -> Post(c, g, e.f)
    [] c.ph = "bind" /\ e.k = "bindres" -> IF c.sess THEN [c |-> [c EXCEPT !.ph = "sess"], out |-> <<Tx("session")>>] ELSE Ready(c, g)
    [] c.ph = "bind" /\ e.k = "binderr" -> Dead(c, <<Tx("close")>>)
    [] c.ph = "sess" /\ e.k = "sessres" -> Ready(c, g)
    [] c.ph = "sm" /\ e.k \in {"enabled", "failed"} -> [c |-> [c EXCEPT !.ph = "up", !.rs = e.k = "enabled"], out |-> <<CC>>]
    [] c.ph = "res" /\ e.k = "resumed" -> [c |-> [c EXCEPT !.ph = "up"], out |-> <<CC>>]
    [] c.ph = "res" /\ e.k = "failed" -> IF c.auth = "b" THEN [c |-> [c EXCEPT !.ph = "bind", !.rs = FALSE], out |-> <<BindTx>>] ELSE Dead(c, <<Tx("close")>>)
    [] c.ph = "leg" /\ e.k = "legres" -> [c |-> [c EXCEPT !.ph = "up"], out |-> <<CC>>]
    [] OTHER -> Same(c)

RECURSIVE Play(_, _)
Play(st, evs) ==           \* st: [s, bad]
  IF evs = <<>> \/ st.bad # "" THEN st
  ELSE LET r == Step(st.s, Head(evs)) IN Play([s |-> r.s, bad |-> r.ok], Tail(evs))
Dial(c, g) == <<[e |-> "dial", rc |-> 0], [e |-> "conn"], OpenTx(c, g)>>
Init == \E g \in Cfgs :
          LET r == Play([s |-> [Init0 EXCEPT !.cfg = g], bad |-> ""], Dial(Cl0, g)) IN
          /\ S = r.s /\ bad = r.bad /\ cl = Cl0 /\ hist = <<>> /\ n = 0
(* the next sensible move of the server, to make long scripts likely                *)
Good(c) == CASE c.ph = "hdr" -> {"open"} [] c.ph = "tls" -> {"proceed"} [] c.ph = "auth" -> {"success", "failure", "challenge"}
             [] c.ph \in {"feat", "tfeat", "zfeat", "sfeat"} -> {"features"} [] c.ph = "z" -> {"compressed"} [] c.ph = "bind" -> {"bindres"}
             [] c.ph = "sess" -> {"sessres"} [] c.ph = "sm" -> {"enabled", "failed"} [] c.ph = "res" -> {"resumed", "failed"}
             [] c.ph = "leg" -> {"legres"} [] OTHER -> Kinds
Fits(f, c) == CASE c.ph = "feat" -> Mech(f) # {} [] c.ph = "tfeat" -> Mech(f) # {} /\ ~Has2(f, "starttls") [] OTHER -> Has2(f, "bind") /\ ~Has2(f, "starttls")
ServerMove == /\ n < MaxMoves /\ bad = "" /\ cl.ph # "dead"
              /\ \E m \in Moves :
                   /\ Exp => ((m.k \in Good(cl) /\ (m.k = "features" => Fits(m.f, cl))) \/ RandomElement(1..300) = 1)
                   /\ LET a == React(cl, S.cfg, m)
                          r == Play([s |-> S, bad |-> ""], <<m>> \o a.out)
                      IN /\ S' = r.s /\ bad' = r.bad /\ cl' = a.c
                   /\ hist' = IF Exp THEN Append(hist, IF m.k = "features" THEN <<m.k, m.f>> ELSE <<m.k>>) ELSE hist
              /\ n' = n + 1
Redial == /\ n < MaxMoves /\ bad = "" /\ cl.ph \in {"dead", "up"} /\ n > 3 /\ (Exp => cl.ph = "dead" \/ RandomElement(1..4) = 1)
          /\ LET c1 == [Cl0 EXCEPT !.rs = cl.rs]
                 r == Play([s |-> S, bad |-> ""], (IF cl.ph = "up" THEN <<CD>> ELSE <<>>) \o Dial(c1, S.cfg))
             IN /\ S' = r.s /\ bad' = r.bad /\ cl' = c1
          /\ hist' = IF Exp THEN Append(hist, <<"redial">>) ELSE hist
          /\ n' = n + 1
Next == ServerMove \/ Redial
Sound == bad = ""
(* connected means a completed negotiation; the design reaches it                    *)
UpOk == cl.ph = "up" => S.up = 1 /\ Complete(S)
Mandatory == S.cfg.mand = 1 => (S.c.auths > 0 \/ S.c.legReq => S.c.sec)
Export == (Exp /\ n = MaxMoves) => PrintT(<<"PROG", <<<<S.cfg.dis, S.cfg.mand, S.cfg.legacy, S.cfg.comp, S.cfg.nosm>>, hist>>>>)
View == <<[S EXCEPT !.c.early = {}], cl, bad, n>>
=============================================================================

------------------------------- MODULE ModelSm -------------------------------
(* A client with a send queue, a queue of unacknowledged stanzas and counters (the *)
(* library's design), a truthful server, a channel which loses what is on the way  *)
(* when the connection breaks.  Checked: Sm.tla never objects to the design, and   *)
(* the end-to-end meaning: nothing that was written under stream management is     *)
(* lost, and with truthful answers nothing arrives twice or out of order.          *)
EXTENDS Sm
CONSTANTS MaxMoves, MaxX, MaxC, Exp
VARIABLES snd, smq, sent, hand, can, id, prev, en, live,   \* client
          sess, c, cin, logs, fl, gen,                     \* server and channel
          nx, W, dup, nc, S, bad, hist, left
vars == <<snd, smq, sent, hand, can, id, prev, en, live, sess, c, cin, logs, fl, gen, nx, W, dup, nc, S, bad, left>>
cl == <<snd, smq, sent, hand, can, id, prev, en, live>>
sv == <<sess, c, cin, logs, fl, gen>>
Nm(i) == IF i = 0 THEN "" ELSE ToString(i)
RECURSIVE SeeAll(_, _, _)
SeeAll(s, b, es) == IF es = <<>> THEN [s |-> s, b |-> b]
                    ELSE LET r == Step(s, es[1]) IN SeeAll(r.s, IF b = "" THEN r.ok ELSE b, Tail(es))
See(es) == LET r == SeeAll(S, bad, es) IN S' = r.s /\ bad' = r.b
BlobEv == IF en' /\ can' /\ id' # 0
          THEN <<[e |-> "blob", cnt |-> sent', hin |-> hand', id |-> Nm(id'),
                  q |-> LET u == SelectSeq(snd', LAMBDA z : z.k = "u") IN [i \in 1..Len(u) |-> u[i].x], un |-> smq']>>
          ELSE <<>>
Log(m) == hist' = Append(hist, m)
Init == /\ snd = <<>> /\ smq = <<>> /\ sent = 0 /\ hand = 0 /\ can = FALSE /\ id = 0 /\ prev = 0 /\ en = FALSE /\ live = FALSE
        /\ sess = 0 /\ c = 0 /\ cin = 0 /\ logs = <<>> /\ fl = <<>> /\ gen = 0
        /\ nx = 0 /\ W = {} /\ dup = FALSE /\ nc = 0 /\ S = Init0 /\ bad = "" /\ hist = <<>> /\ left = MaxMoves
Uel(x, re) == [k |-> "u", x |-> x, re |-> re, h |-> 0]
Resend(q) == [i \in 1..Len(q) |-> Uel(q[i].x, TRUE)]
(* what comes after <resume/> or instead of it: a new session, managed or not       *)
New(q, offer, enb, failed, pre, m) ==
  /\ snd' = Resend(q) /\ smq' = <<>> /\ live' = TRUE
  /\ prev' = (IF failed \/ (offer /\ enb # "ok") THEN 0 ELSE prev)
  /\ (IF offer /\ enb = "ok"
      THEN /\ gen' = gen + 1 /\ sess' = gen + 1 /\ c' = 0 /\ cin' = 0 /\ id' = gen + 1 /\ can' = TRUE /\ sent' = 0 /\ hand' = 0 /\ en' = TRUE
           /\ See(pre \o <<[e |-> "bind"], [e |-> "enable"], [e |-> "enabled", can |-> 1, id |-> Nm(gen + 1)], [e |-> "up"]>> \o BlobEv)
      ELSE /\ en' = FALSE /\ UNCHANGED <<gen, sess, c, cin, hand>>
           /\ can' = FALSE /\ (IF offer \/ failed THEN sent' = 0 /\ id' = 0 ELSE UNCHANGED <<sent, id>>)
           /\ See(pre \o (IF offer THEN <<[e |-> "bind"], [e |-> "enable"], [e |-> "failed", h |-> -1], [e |-> "up"]>>
                           ELSE <<[e |-> "bind"], [e |-> "up"]>>)))
  /\ Log(m)
Connect ==
  /\ ~live /\ nc < MaxC /\ nc' = nc + 1 /\ fl' = <<>> /\ UNCHANGED <<logs, nx, W>>
  /\ \E offer \in {TRUE, FALSE}, enb \in {"ok", "failed"}, res \in {"ok", "fail", "failh"} :
       /\ (offer \/ (enb = "ok" /\ res = "ok"))
       /\ LET m == [m |-> "connect", sm |-> offer, enable |-> enb, resume |-> res, h |-> c]
              D == [e |-> "dial"]
          IN IF offer /\ can /\ prev # 0
             THEN LET R == [e |-> "resume", h |-> hand, id |-> Nm(prev)] IN
                  IF res = "ok"
                  THEN /\ sess = prev /\ enb = "ok"
                       /\ LET rest == SelectSeq(smq, LAMBDA z : z.n >= c) IN
                          /\ snd' = Resend(rest) /\ smq' = <<>>
                          /\ sent' = (IF rest = <<>> THEN c ELSE rest[1].n)
                          /\ en' = TRUE /\ live' = TRUE /\ id' = prev /\ prev' = 0 /\ UNCHANGED <<hand, can, sess, c, cin, gen, dup>>
                          /\ See(<<D, R, [e |-> "resumed", h |-> c], [e |-> "up"]>> \o BlobEv) /\ Log(m)
                  ELSE /\ dup' = (dup \/ res = "fail")
                       /\ New(IF res = "failh" THEN SelectSeq(smq, LAMBDA z : z.n >= c) ELSE smq, TRUE, enb,
                              TRUE, <<D, R, [e |-> "failed", h |-> IF res = "failh" THEN c ELSE -1]>>, m)
             ELSE /\ res = "ok" /\ dup' = (dup \/ smq # <<>>) /\ New(smq, offer, enb, FALSE, <<D>>, m)
Send == /\ live /\ nx < MaxX /\ nx' = nx + 1 /\ snd' = Append(snd, Uel(ToString(nx + 1), FALSE))
        /\ UNCHANGED <<smq, sent, hand, can, id, prev, en, live, sv, W, dup, nc>>
        /\ See(<<[e |-> "q", x |-> ToString(nx + 1)]>> \o BlobEv) /\ Log([m |-> "q"])
Write == /\ live /\ snd # <<>>
         /\ UNCHANGED <<hand, can, id, prev, en, live, sess, c, cin, logs, gen, nx, dup, nc>> /\ Log([m |-> "write"])
         /\ LET z == snd[1] IN
            /\ snd' = Tail(snd) /\ fl' = Append(fl, z)
            /\ (IF z.k = "a" THEN /\ UNCHANGED <<smq, sent, W>> /\ See(<<[e |-> "a", h |-> z.h]>> \o BlobEv)
                ELSE /\ smq' = (IF en THEN Append(smq, El(z.x, sent)) ELSE smq) /\ sent' = (IF en THEN sent + 1 ELSE sent)
                     /\ W' = (IF en THEN W \cup {z.x} ELSE W \ {z.x})
                     /\ See(<<[e |-> "stz", x |-> z.x]>> \o BlobEv))
Recv == /\ fl # <<>>
        /\ fl' = Tail(fl)
        /\ IF fl[1].k = "u" THEN logs' = Append(logs, fl[1].x) /\ c' = (IF en THEN c + 1 ELSE c) ELSE UNCHANGED <<logs, c>>
        /\ UNCHANGED <<cl, sess, cin, gen, nx, W, dup, nc, S, bad>> /\ Log([m |-> "recv"])
Ack == /\ live /\ en /\ smq # <<>>
       /\ smq' = SelectSeq(smq, LAMBDA z : z.n >= c)
       /\ UNCHANGED <<snd, sent, hand, can, id, prev, en, live, sv, nx, W, dup, nc>>
       /\ See(<<[e |-> "ack", h |-> c]>> \o BlobEv) /\ Log([m |-> "ack", h |-> c])
In == /\ live /\ cin < 2 /\ cin' = cin + 1 /\ hand' = (IF en THEN hand + 1 ELSE hand)
      /\ UNCHANGED <<snd, smq, sent, can, id, prev, en, live, sess, c, logs, fl, gen, nx, W, dup, nc>>
      /\ See(<<[e |-> "in"]>> \o BlobEv) /\ Log([m |-> "in"])
Rq == /\ live /\ en /\ Len(snd) < 4
      /\ snd' = Append(snd, [k |-> "a", x |-> "", re |-> FALSE, h |-> hand])
      /\ UNCHANGED <<smq, sent, hand, can, id, prev, en, live, sv, nx, W, dup, nc>>
      /\ See(<<[e |-> "r"]>> \o BlobEv) /\ Log([m |-> "r"])
Lose == /\ live /\ live' = FALSE /\ en' = FALSE /\ fl' = <<>>
        /\ LET back == SelectSeq(snd, LAMBDA z : z.re) IN
           /\ smq' = smq \o [i \in 1..Len(back) |-> El(back[i].x, sent + i - 1)] /\ sent' = sent + Len(back)
           /\ snd' = <<>>
        /\ (IF can THEN (IF id # 0 THEN prev' = id /\ id' = 0 ELSE UNCHANGED <<id, prev>>) ELSE id' = 0 /\ prev' = 0)
        /\ UNCHANGED <<hand, can, sess, c, cin, logs, gen, nx, W, dup, nc>>
        /\ See(<<[e |-> "down"]>>) /\ Log([m |-> "lose"])
Next == left > 0 /\ left' = left - 1 /\ (Connect \/ Send \/ Write \/ Recv \/ Ack \/ In \/ Rq \/ Lose)
Agrees == bad = "" /\ ~S.wild
Ran(q) == {q[i] : i \in 1..Len(q)}
NoLoss == \A x \in W : x \in Ran(logs) \/ (\E i \in 1..Len(smq) : smq[i].x = x) \/ (\E i \in 1..Len(snd) : snd[i].x = x) \/ (\E i \in 1..Len(fl) : fl[i].x = x)
(* not a duplicate, not out of order                                               *)
Once == dup \/ \A i, j \in 1..Len(logs) : i < j => logs[i] # logs[j]
Val(x) == CHOOSE n \in 1..MaxX : ToString(n) = x
Ordered == dup \/ \A i, j \in 1..Len(logs) : i < j => Val(logs[i]) < Val(logs[j])
(* only what the server may still lack is kept                                      *)
Counts == (en /\ live) => \A i \in 1..Len(smq) : smq[i].n < sent
Export == (Exp = 1 /\ left = 0) => PrintT(<<"PROG", hist>>)
View == vars
=============================================================================

-------------------------------- MODULE Life ---------------------------------
(* Connection lifecycle with time (property C13): every accepted attempt ends in  *)
(* exactly one disconnect notification, the predicates agree with what was        *)
(* notified, waits with a deadline are given up when and not before it passes,    *)
(* offline-only settings, stream errors.  Step(S, e) is the observer.             *)
(* U is the length of a second in units of the trace's clock.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT U
OK(s) == [ok |-> "", s |-> s]
No(s, why) == [ok |-> why, s |-> s]
LenOf(k) == CASE k = "close" -> 2 * U [] k = "connect" -> 5 * U [] OTHER -> 15 * U
Init0 == [kind |-> "client", att |-> FALSE, up |-> FALSE, raw |-> FALSE,
          fds |-> {},            \* sockets: [fd, t, st: "wait" | "bad" | "ok", cl: closed by us]
          txd |-> FALSE,         \* something was sent
          may |-> FALSE,         \* may end at once
          hdr |-> FALSE,         \* our stream header waits for an answer
          opn |-> FALSE,         \* the server opened the current stream
          w |-> {},              \* waits with a deadline: [k, lo, hi]
          due |-> {},            \* those which have run out: [k, n] n: number of the loop that had to see it
          brk |-> FALSE,         \* what the server sent wasn't XML
          closing |-> FALSE, ud |-> FALSE,
          ex |-> FALSE,          \* the server said something which may end the connection
          must |-> "", mustn |-> 0,   \* the connection has ended: the notification is due by the end of that loop
          se |-> -1, txt |-> "-", sealt |-> FALSE, last |-> 0, lt |-> 0, plt |-> 0, n |-> 0, flags |-> 0, rel |-> FALSE]
Fresh(S) == [S EXCEPT !.att = TRUE, !.up = FALSE, !.raw = FALSE, !.fds = {}, !.txd = FALSE, !.may = FALSE, !.hdr = FALSE, !.opn = FALSE, !.brk = FALSE, !.w = {}, !.due = {}, !.closing = FALSE,
                      !.ud = FALSE, !.ex = FALSE, !.must = "", !.se = -1, !.txt = "-", !.sealt = FALSE]
Must(S, why) == IF S.att /\ S.must = "" THEN [S EXCEPT !.must = why, !.mustn = S.n] ELSE S
Wait(S, k, lo, hi) == [S EXCEPT !.w = {x \in @ : x.k # k} \cup {[k |-> k, lo |-> lo, hi |-> hi]}]
Clear(S, k, t) == [S EXCEPT !.w = {x \in @ : x.k # k}, !.due = {x \in @ : x.k # k}, !.may = @ \/ \E x \in S.w : x.k = k /\ t >= x.lo + LenOf(k)]
Ran(S, t) == \E x \in S.w : t >= x.lo + LenOf(x.k)
(* reasons to end (or begin to end) the connection at time t                        *)
ConnFailed(S, t) == S.fds # {} /\ \A f \in S.fds : f.st = "bad" \/ ((f.st = "wait" \/ (~S.txd /\ ~S.raw)) /\ t >= f.t + LenOf("connect"))
Reason(S, t) ==
  \/ S.must # "" \/ S.rel \/ S.may \/ Ran(S, t)
  \/ ConnFailed(S, t)
  \/ S.ex
  \/ (~S.closing /\ (~S.up /\ ~S.raw /\ S.w = {} /\ t >= S.last + 2 * U /\ \E f \in S.fds : f.st = "ok"))
ReqWait == [bind |-> "bind", session |-> "session", legacy |-> "legacy", handshake |-> "handshake"]
Answers == [bindres |-> "bind", binderr |-> "bind", sessres |-> "session", sesserr |-> "session", legres |-> "legacy", legerr |-> "legacy",
            handshake |-> "handshake", features |-> "features"]
Noise == {"stanza", "r", "ack", "ws"}
SeNames == <<"bad-format", "bad-namespace-prefix", "conflict", "connection-timeout", "host-gone", "host-unknown", "improper-addressing",
             "internal-server-error", "invalid-from", "invalid-id", "invalid-namespace", "invalid-xml", "not-authorized", "policy-violation",
             "remote-connection-failed", "resource-constraint", "restricted-xml", "see-other-host", "system-shutdown", "undefined-condition",
             "unsupported-encoding", "unsupported-stanza-type", "unsupported-version", "xml-not-well-formed">>
SeCode(c) == IF c = "not-well-formed" THEN 23 ELSE (CHOOSE i \in 1..Len(SeNames) : SeNames[i] = c) - 1
KnownBits == 256
(* DISABLE_TLS (1) excludes MANDATORY_TLS (2), LEGACY_SSL (4), TRUST_TLS (8)         *)
Conflict(w) == w % 2 = 1 /\ (w \div 2) % 8 # 0

(* a component connection never uses TLS: connecting sets that flag                  *)
CompFlags(S) == IF S.kind = "component" /\ S.flags % 2 = 0 /\ ~Conflict(S.flags + 1) THEN S.flags + 1 ELSE S.flags
Pred(S, p) ==
  LET want == IF ~S.att THEN <<0, 0, 1>> ELSE IF S.up \/ S.raw THEN <<0, 1, 0>> ELSE <<1, 0, 0>>
  IN IF p[1] + p[2] + p[3] # 1 THEN "not exactly one of connecting, connected, disconnected"
     ELSE IF p # want THEN "the predicates do not agree with the notifications" ELSE ""

Loop(S, e) ==
  LET S1 == [S EXCEPT !.n = @ + 1, !.plt = S.lt, !.lt = e.t] IN
  IF S.att /\ S.must # "" /\ S.mustn < S1.n THEN No(S, "no disconnect notification although " \o S.must)
  ELSE IF S.att /\ \A f \in S.fds : f.cl THEN No(S, "no disconnect notification although every connection attempt was given up")
  ELSE IF S.att /\ \E f \in S.fds : ~f.cl /\ f.st = "wait" /\ S.lt > f.t + LenOf("connect") THEN No(S, "a connect that is not given up after its deadline")
  ELSE IF S.att /\ \E x \in S.due : S1.n >= x.n + 2 THEN No(S, "a wait that is not given up after its deadline")
  ELSE OK([S1 EXCEPT !.due = @ \cup {[k |-> x.k, n |-> S1.n] : x \in {y \in S.w : e.t > y.hi + LenOf(y.k) /\ ~\E z \in S.due : z.k = y.k}}])

Tx(S, e) ==
  LET S0 == [S EXCEPT !.last = e.t, !.txd = TRUE] IN
  CASE e.k = "close" ->
         IF S.closing THEN OK(S0)
         ELSE IF ~Reason(S, e.t) THEN No(S, "the stream is closed before the deadline")
         ELSE OK(Wait([S0 EXCEPT !.closing = TRUE, !.w = {}, !.due = {}, !.ex = FALSE], "close", S.plt, e.t))
    [] e.k = "serror" -> OK([S0 EXCEPT !.brk = TRUE])                       \* the rest of the stream isn't understood
    [] e.k = "open" -> OK([S0 EXCEPT !.hdr = TRUE, !.opn = FALSE, !.brk = FALSE, !.ex = FALSE])
    [] e.k \in DOMAIN ReqWait \cup {"auth"} ->
         IF (\E x \in S.w : x.k = "features") /\ ~S.ex /\ ~Ran(S, e.t) THEN No(S, "the features are given up before the deadline")
         ELSE LET S1 == [S0 EXCEPT !.ex = FALSE, !.w = {x \in @ : x.k # "features"}, !.due = {x \in @ : x.k # "features"}] IN OK(IF e.k = "auth" THEN S1 ELSE Wait(S1, ReqWait[e.k], S.plt, e.t))
    [] OTHER -> OK([S0 EXCEPT !.ex = FALSE])

Rx(S, e) ==
  LET S0 == [S EXCEPT !.last = e.t] IN
  CASE S.brk -> IF e.k = "serror" THEN [S0 EXCEPT !.may = TRUE, !.sealt = TRUE] ELSE [S0 EXCEPT !.may = TRUE]
    [] S.hdr /\ e.k # "open" -> [S0 EXCEPT !.may = TRUE, !.brk = TRUE]      \* not a stream
    [] e.k = "open" -> IF S.hdr THEN (IF S.kind = "client" /\ ~S.closing THEN Wait([S0 EXCEPT !.hdr = FALSE, !.opn = TRUE], "features", e.t, e.t) ELSE [S0 EXCEPT !.hdr = FALSE, !.opn = TRUE])
                       ELSE [S0 EXCEPT !.may = TRUE, !.brk = TRUE]      \* a second XML declaration isn't well-formed
    [] e.k = "close" -> IF S.opn THEN Must(S0, "the server closed the stream") ELSE [S0 EXCEPT !.may = TRUE]
    [] e.k = "serror" -> [S0 EXCEPT !.se = SeCode(e.cond), !.txt = e.txt, !.ex = TRUE]
    [] e.k \in Noise -> S0
    [] e.k \in DOMAIN Answers -> LET S1 == [S0 EXCEPT !.ex = TRUE] IN IF S1.closing THEN S1 ELSE Clear(S1, Answers[e.k], e.t)
    [] OTHER -> [S0 EXCEPT !.ex = TRUE]

Cb(S, e) ==
  LET S1 == CASE e.ce = "connect" -> [S EXCEPT !.up = TRUE, !.ex = FALSE, !.may = @ \/ Ran(S, e.t), !.w = {x \in @ : x.k = "close"}, !.due = {x \in @ : x.k = "close"}]
              [] e.ce = "raw" -> [S EXCEPT !.raw = TRUE]
              [] OTHER -> [S EXCEPT !.att = FALSE, !.up = FALSE, !.raw = FALSE, !.w = {}, !.due = {}, !.must = ""]
      p == Pred(S1, e.p)
  IN IF ~S.att THEN No(S, "a notification without an attempt (or after it has ended)")
     ELSE IF e.ce = "connect" /\ S.up THEN No(S, "connected twice")
     ELSE IF p # "" THEN No(S, p)
     ELSE IF e.ce = "disconnect" /\ ~Reason(S, e.t) THEN No(S, "disconnected before the deadline, without a reason")
     ELSE IF e.ce = "disconnect" /\ e.se # S.se /\ ~S.sealt THEN No(S, "the stream error is not reported as the server sent it")
     ELSE IF e.ce = "disconnect" /\ e.se # -1 /\ ~S.sealt /\ e.txt # S.txt THEN No(S, "the text of the stream error is not reported as the server sent it")
     ELSE OK(S1)

Step(S, e) ==
  CASE e.e = "cfg" -> OK([S EXCEPT !.kind = e.kind])
    [] e.e = "dial" -> IF S.att THEN (IF e.rc = 0 THEN No(S, "an attempt is accepted while another one is going on") ELSE OK(S))
                       ELSE LET fl == CompFlags(S) IN
                            IF e.rc = 0 THEN OK([Fresh(S) EXCEPT !.last = e.t, !.flags = fl]) ELSE OK([S EXCEPT !.flags = fl])
    [] e.e = "conn" -> IF S.att THEN OK([S EXCEPT !.fds = @ \cup {[fd |-> e.fd, t |-> e.t, st |-> e.st, cl |-> FALSE]}]) ELSE OK(S)
    [] e.e = "close" -> IF ~S.att THEN OK(S)
                        ELSE IF (\E f \in S.fds : f.fd = e.fd /\ ~f.cl /\ f.st = "wait" /\ e.t < f.t + LenOf("connect")) /\ ~S.ud /\ ~S.rel
                        THEN No(S, "a connect is given up before its deadline")
                        ELSE OK([S EXCEPT !.fds = {IF f.fd = e.fd THEN [f EXCEPT !.cl = TRUE] ELSE f : f \in @}, !.last = e.t])
    [] e.e = "loop" -> Loop(S, e)
    [] e.e = "tx" -> IF S.att THEN Tx(S, e) ELSE OK(S)
    [] e.e = "rx" -> IF S.att THEN OK(Rx(S, e)) ELSE OK(S)
    [] e.e = "eof" -> IF S.may THEN OK(S) ELSE OK(Must(S, "the transport failed"))
    [] e.e = "bad" -> OK([S EXCEPT !.may = TRUE, !.brk = TRUE, !.last = e.t])     \* a failure of TLS, or of the compression
    [] e.e = "cb" -> Cb(S, e)
    [] e.e = "udisc" -> IF ~S.att THEN OK(S)
                        ELSE IF S.closing THEN OK([S EXCEPT !.ud = TRUE])
                        ELSE OK(Wait([S EXCEPT !.ud = TRUE, !.closing = TRUE, !.w = {}, !.due = {}, !.may = @ \/ ~S.txd], "close", IF Ran(S, S.lt) THEN S.lt ELSE e.t, e.t))
    [] e.e = "uopen" -> OK([S EXCEPT !.hdr = S.att, !.opn = FALSE, !.brk = FALSE])
    [] e.e = "release" -> OK([S EXCEPT !.rel = TRUE])
    [] e.e = "released" -> IF S.att THEN No(S, "the connection was released without a disconnect notification") ELSE OK(S)
    [] e.e = "pred" -> LET p == Pred(S, e.p) IN IF p # "" THEN No(S, p) ELSE OK(S)
    [] e.e = "flags" -> IF S.att THEN (IF e.rc = 0 \/ e.got # S.flags THEN No(S, "flags were changed while not disconnected") ELSE OK(S))
                        ELSE IF e.w >= KnownBits THEN OK([S EXCEPT !.flags = e.got])
                        ELSE IF Conflict(e.w) THEN (IF e.rc = 0 \/ e.got # S.flags THEN No(S, "conflicting flags were accepted") ELSE OK(S))
                        ELSE IF e.rc # 0 THEN No(S, "valid flags were refused while disconnected")
                        ELSE IF e.got # e.w THEN No(S, "the flags do not read back as set") ELSE OK([S EXCEPT !.flags = e.got])
    [] e.e = "getf" -> IF e.got # S.flags THEN No(S, "the flags do not read back as set") ELSE OK(S)
    [] e.e = "setsm" -> IF S.att /\ e.rc = 0 THEN No(S, "stream management state was replaced while not disconnected")
                        ELSE IF ~S.att /\ e.rc # 0 /\ e.free = 1 THEN No(S, "stream management state was refused while disconnected") ELSE OK(S)
    [] OTHER -> No(S, "unknown event")
=============================================================================

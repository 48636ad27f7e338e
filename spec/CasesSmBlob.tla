----------------------------- MODULE CasesSmBlob -----------------------------
(* Judges recorded uses of xmpp_conn_restore_sm_state.  A case: b, rc (0/1),      *)
(* ops: after it; each has n (queue length afterwards) and blobs (states which     *)
(* the callback got) and                                                          *)
(*   drop: w (1 first, 0 last element), v (text up to a NUL, [-1] nothing)         *)
(*   again: another restore, rc                                                   *)
(*   up: connected (1) and what was sent after the session was established        *)
EXTENDS SmBlob, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
RECURSIVE Cs(_)
Cs(x) == IF x = <<>> \/ x[1] = 0 THEN <<>> ELSE <<x[1]>> \o Cs(Tail(x))
HasNul(x) == \E i \in 1..Len(x) : x[i] = 0
(* never written by the library: an id is a text                                  *)
Odd(r) == HasNul(r.id)
RECURSIVE Ops(_, _, _, _)
Ops(c, s, i, k) ==
  IF i > Len(c.ops) THEN "ok"
  ELSE LET o == c.ops[i] IN
       CASE o.op = "drop" ->
              IF s.q = <<>> THEN (IF o.v # <<0 - 1>> THEN "dropped something from an empty queue"
                                  ELSE IF o.n # 0 THEN "the empty queue has a length" ELSE Ops(c, s, i + 1, k))
              ELSE LET x == IF o.w = 1 THEN s.q[1] ELSE s.q[Len(s.q)]
                       t == [s EXCEPT !.q = IF o.w = 1 THEN Tail(@) ELSE SubSeq(@, 1, Len(@) - 1)]
                   IN IF o.v # Cs(x) THEN "dropped another text"
                      ELSE IF o.n # Len(t.q) THEN "wrong queue length"
                      ELSE IF \E j \in 1..Len(o.blobs) : o.blobs[j] # Write(t) THEN "the state isn't the restored one"
                      ELSE IF o.blobs = <<>> THEN "the changed state isn't reported"
                      ELSE Ops(c, t, i + 1, k)
         [] o.op = "qlen" -> IF o.n # Len(s.q) THEN "wrong queue length" ELSE Ops(c, s, i + 1, k)
         [] o.op = "again" -> IF o.rc = 1 THEN (IF k THEN "restored over another state" ELSE
                                                LET r == Read(o.b) IN IF r.ok /\ Odd(r) THEN "ok" ELSE IF r.ok THEN Ops(c, State(r), i + 1, TRUE) ELSE "restored something that is no state")
                              ELSE IF ~k /\ Read(o.b).ok /\ ~Odd(Read(o.b)) THEN "a state was refused after another one was refused"
                              ELSE IF o.n # Len(s.q) THEN "a refused state changed the queue" ELSE Ops(c, s, i + 1, k)
         [] o.op = "up" -> IF o.c # 1 THEN "no session afterwards"
                           ELSE IF o.d # Cat([j \in 1..Len(s.un) |-> s.un[j].d]) \o o.x THEN "what is sent is not the unacknowledged queue" ELSE "ok"
         [] OTHER -> "unknown operation"
Empty == [cnt |-> B4(0), hin |-> B4(0), id |-> <<>>, q |-> <<>>, un |-> <<>>]
Why(c) == LET r == Read(c.b) IN
          IF c.rc = 1 /\ ~r.ok THEN "restored something that is no state"
          ELSE IF c.rc = 0 /\ r.ok /\ ~Odd(r) THEN "refused a state"
          ELSE IF c.rc = 1 /\ Odd(r) THEN "ok"
          ELSE Ops(c, IF c.rc = 1 THEN State(r) ELSE Empty, 1, c.rc = 1)
VARIABLES idx
Init == idx \in 1..8
Next == /\ idx <= Len(Cases)
        /\ LET w == Why(Cases[idx]) IN IF w = "ok" THEN TRUE ELSE PrintT(<<"REJECT", idx, w>>)
        /\ IF Cases[idx].rc = 1 THEN PrintT(<<"WF", idx>>) ELSE TRUE
        /\ idx' = idx + 8
=============================================================================

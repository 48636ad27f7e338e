------------------------------- MODULE Base64 -------------------------------
(* RFC 4648 base64 as an exact, strict codec.                                *)
(*                                                                           *)
(* The codec is given twice: as functions on byte sequences (Enc, Valid,     *)
(* Dec), and as a quartet-by-quartet decoder machine (DecStep) shaped like   *)
(* the implementation.  ModelBase64 checks that the two agree and that       *)
(* Dec \o Enc is the identity; CasesBase64 checks recorded library results.  *)
EXTENDS Naturals, Sequences

Alpha(v) == IF v < 26 THEN 65 + v
            ELSE IF v < 52 THEN 97 + v - 26
            ELSE IF v < 62 THEN 48 + v - 52
            ELSE IF v = 62 THEN 43 ELSE 47
PAD == 61
Inv(c) == IF c >= 65 /\ c <= 90 THEN c - 65
          ELSE IF c >= 97 /\ c <= 122 THEN c - 97 + 26
          ELSE IF c >= 48 /\ c <= 57 THEN c - 48 + 52
          ELSE IF c = 43 THEN 62
          ELSE IF c = 47 THEN 63
          ELSE IF c = PAD THEN 64 ELSE 65

Enc(s) ==
  LET n == Len(s)
      B(i) == IF i <= n THEN s[i] ELSE 0
      C(j) == LET g == (j - 1) \div 4
                  k == (j - 1) % 4
                  b1 == B(3*g + 1)
                  b2 == B(3*g + 2)
                  b3 == B(3*g + 3)
              IN CASE k = 0 -> Alpha(b1 \div 4)
                   [] k = 1 -> Alpha((b1 % 4) * 16 + b2 \div 16)
                   [] k = 2 -> IF 3*g + 2 <= n THEN Alpha((b2 % 16) * 4 + b3 \div 64) ELSE PAD
                   [] k = 3 -> IF 3*g + 3 <= n THEN Alpha(b3 % 64) ELSE PAD
  IN [j \in 1 .. 4 * ((n + 2) \div 3) |-> C(j)]

(* number of trailing padding characters of a correctly padded string, 3 = invalid *)
Padding(t) ==
  LET n == Len(t)
  IN IF n % 4 # 0 THEN 3
     ELSE IF n = 0 THEN 0
     ELSE IF t[n] # PAD THEN 0
     ELSE IF t[n-1] # PAD THEN 1 ELSE 2
Valid(t) ==
  /\ Len(t) % 4 = 0
  /\ \A i \in 1 .. Len(t) - Padding(t) : Inv(t[i]) < 64
(* the bits dropped by the padding are zero *)
Canonical(t) ==
  LET n == Len(t)  p == Padding(t)
  IN CASE p = 0 -> TRUE
       [] p = 1 -> Inv(t[n-1]) % 4 = 0
       [] p = 2 -> Inv(t[n-2]) % 16 = 0
Dec(t) ==
  LET n == Len(t)
      m == 3 * (n \div 4) - Padding(t)
      V(i) == IF t[i] = PAD THEN 0 ELSE Inv(t[i])
  IN [i \in 1 .. m |->
        LET g == (i - 1) \div 3
            k == (i - 1) % 3
        IN CASE k = 0 -> V(4*g+1) * 4 + V(4*g+2) \div 16
             [] k = 1 -> (V(4*g+2) % 16) * 16 + V(4*g+3) \div 4
             [] k = 2 -> (V(4*g+3) % 4) * 64 + V(4*g+4)]

(* decoder machine: consumes one quartet per step *)
DecInit == [pos |-> 0, out |-> <<>>, st |-> "run"]
DecStep(m, t) ==
  IF m.pos + 4 > Len(t)
  THEN [m EXCEPT !.st = IF m.pos = Len(t) THEN "ok" ELSE "fail"]
  ELSE LET a == Inv(t[m.pos+1])  b == Inv(t[m.pos+2])
           c == Inv(t[m.pos+3])  d == Inv(t[m.pos+4])
           last == m.pos + 4 = Len(t)
           adv(o) == [m EXCEPT !.pos = @ + 4, !.out = @ \o o]
           bad == [m EXCEPT !.st = "fail"]
       IN IF a > 63 \/ b > 63 THEN bad
          ELSE IF c < 64 /\ d < 64
               THEN adv(<<a*4 + b \div 16, (b % 16)*16 + c \div 4, (c % 4)*64 + d>>)
          ELSE IF last /\ d = 64 /\ c < 64 THEN adv(<<a*4 + b \div 16, (b % 16)*16 + c \div 4>>)
          ELSE IF last /\ d = 64 /\ c = 64 THEN adv(<<a*4 + b \div 16>>)
          ELSE bad
=============================================================================

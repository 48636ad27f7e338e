------------------------------ MODULE ModelJid ------------------------------
(* Every string over the critical alphabet: a left-to-right scanner machine   *)
(* agrees with the partition functions and the parts rebuild the string.      *)
EXTENDS Jid
CONSTANTS Chars, MaxLen
VARIABLES s, i, st, n, d, r
Strings(S, k) == UNION {[1..j -> S] : j \in 0..k}
Init == s \in Strings(Chars, MaxLen) /\ i = 1 /\ st = "head" /\ n = None /\ d = <<>> /\ r = None
Next == /\ i <= Len(s)
        /\ i' = i + 1
        /\ UNCHANGED s
        /\ LET c == s[i] IN
           IF st = "res" THEN r' = Some(Append(r.v, c)) /\ UNCHANGED <<st, n, d>>
           ELSE IF c = SLASH THEN st' = "res" /\ r' = Some(<<>>) /\ UNCHANGED <<n, d>>
           ELSE IF st = "head" /\ c = AT THEN st' = "dom" /\ n' = Some(d) /\ d' = <<>> /\ UNCHANGED r
           ELSE d' = Append(d, c) /\ UNCHANGED <<st, n, r>>
Agree == i > Len(s) => n = Node(s) /\ d = Domain(s) /\ r = Resource(s)
Rebuild == Join(Node(s), Domain(s), Resource(s)) = s
SplitJoin == i > Len(s) /\ MustBuild(n, Some(d), r)
             => LET j == Join(n, d, r) IN Node(j) = n /\ Domain(j) = d /\ Resource(j) = r
=============================================================================

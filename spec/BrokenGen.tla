------------------------------ MODULE BrokenGen ------------------------------
(* Prints every malformed element of Broken in every spelling, on its own.  *)
EXTENDS Broken, TLC, Json
VARIABLES n, v
Stray(k, w) == IF w = 0 THEN Strays[k] ELSE Trimmed(Strays[k], IF w % 2 = 0 THEN "-" ELSE "~", w \div 2 % 3)
Init == n = 1 /\ v = 0
Next == /\ n <= Len(Brokens) + Len(Strays)
        /\ PrintT("GEN " \o ToJson([text |-> IF n <= Len(Brokens) THEN Spelled(n, v) ELSE Stray(n - Len(Brokens), v)]))
        /\ IF v = 6 THEN n' = n + 1 /\ v' = 0 ELSE v' = v + 1 /\ UNCHANGED n
Spec == Init /\ [][Next]_<<n, v>>
=============================================================================

-------------------------------- MODULE Rand --------------------------------
(* A deterministic source of choices: two small linear congruential         *)
(* generators side by side, so that a seed fixes every sampled behaviour    *)
(* whatever the number of TLC workers.                                      *)
EXTENDS Naturals, Sequences

RandInit(seed, id) ==
  LET a == (seed * 7919 + id * 104729 + 12345) % 65537
      b == (seed * 3571 + id * 15485 + 777) % 30269
      c == (seed * 40503 + id * 9973 + 4242) % 60013
  IN << IF a = 0 THEN 1 ELSE a, IF b = 0 THEN 1 ELSE b, IF c = 0 THEN 1 ELSE c >>
RandNext(r) == << (r[1] * 75 + 74) % 65537, (r[2] * 171) % 30269, (r[3] * 1001 + 7) % 60013 >>
(* a number in 1..n                                                          *)
Rand(r, n) == ((r[1] + r[2] + r[3]) % n) + 1
=============================================================================

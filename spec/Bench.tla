-------------------------------- MODULE Bench --------------------------------
(* What an example's test bench owes: it hands every input of its stimulus to *)
(* the design, each once and in order, whatever the pace of the design, takes *)
(* as many results as are expected, and says "passed" (and ends with success)  *)
(* exactly if every result is the one expected.                                *)
EXTENDS Integers, Sequences, FiniteSets
(* results of the two scalar examples *)
RECURSIVE Fold(_, _, _)
Fold(kind, s, a) == IF s = <<>> THEN a ELSE Fold(kind, Tail(s), IF kind = "add" THEN a + Head(s) ELSE a * Head(s))
Result(kind, s) == Fold(kind, s, IF kind = "add" THEN 0 ELSE 1)
Limbs(n, k) == [i \in 1..k |-> IF i = 1 THEN n % 65536 ELSE IF i = 2 THEN n \div 65536 ELSE 0]
(* the verdict over the devices: each passes or fails, the run fails with any  *)
Verdict(oks, rc, good, bad) ==
    /\ (rc = 0) = (\A d \in DOMAIN oks : oks[d])
    /\ good = Cardinality({d \in DOMAIN oks : oks[d]})
    /\ bad = Cardinality({d \in DOMAIN oks : ~oks[d]})
==============================================================================

------------------------------- MODULE BenchMC -------------------------------
(* A test bench and a design, step by step: inputs under back-pressure, results *)
(* at the design's pace, right or wrong in any element; "Way" picks a test      *)
(* bench that goes about it the wrong way.                                      *)
EXTENDS Bench
CONSTANTS Way, Inputs, Results, Width
VARIABLES rdy, idx, taken, shown, got, good, truth, done, verdict
vars == <<rdy, idx, taken, shown, got, good, truth, done, verdict>>
Elements == [1..Width -> BOOLEAN] \* TRUE: as expected
None == <<>>
Init == /\ rdy \in BOOLEAN /\ idx = 1 /\ taken = <<>> /\ shown = None /\ got = 0
        /\ good = TRUE /\ truth = TRUE /\ done = FALSE /\ verdict = 0
(* a cycle of the input side: the design takes what is presented when it is ready *)
Feed == /\ idx <= Inputs /\ rdy' \in BOOLEAN
        /\ taken' = (IF rdy THEN Append(taken, idx) ELSE taken)
        /\ idx' = (IF Way = "ignore ready" THEN idx + 1 ELSE IF Way = "again" /\ ~rdy' THEN idx ELSE IF rdy THEN idx + 1 ELSE idx)
        /\ Len(taken') <= Inputs + 1
        /\ UNCHANGED <<shown, got, good, truth, done, verdict>>
Answer == /\ shown = None /\ ~done /\ Len(taken) + 1 > got /\ \E e \in Elements : shown' = e
          /\ UNCHANGED <<rdy, idx, taken, got, good, truth, done, verdict>>
Match(e) == CASE Way = "last element" -> e[Width]
              [] Way = "first element" -> e[1]
              [] Way = "any element" -> \E i \in 1..Width : e[i]
              [] OTHER -> \A i \in 1..Width : e[i]
Take == /\ shown # None /\ ~done
        /\ truth' = (truth /\ \A i \in 1..Width : shown[i])
        /\ good' = (IF Way = "latest" THEN Match(shown) ELSE IF Way = "skip first" /\ got = 0 THEN good ELSE good /\ Match(shown))
        /\ got' = got + 1 /\ shown' = None
        /\ UNCHANGED <<rdy, idx, taken, done, verdict>>
Judge == /\ ~done /\ got = (IF Way = "early" THEN Results - 1 ELSE Results) /\ idx > Inputs
         /\ done' = TRUE /\ verdict' = (IF good \/ Way = "never fails" THEN 0 ELSE 1)
         /\ UNCHANGED <<rdy, idx, taken, shown, got, good, truth>>
Next == Feed \/ Answer \/ (got < Results /\ Take) \/ Judge
Spec == Init /\ [][Next]_vars /\ WF_vars(Judge) /\ WF_vars(Answer) /\ WF_vars(got < Results /\ Take) /\ WF_vars(Feed) /\ SF_vars(Feed /\ rdy')
Once == taken = [i \in 1..Len(taken) |-> i] /\ (done => Len(taken) = Inputs)
Sound == done => got = Results /\ Verdict(<<truth>>, verdict, IF verdict = 0 THEN 1 ELSE 0, IF verdict = 0 THEN 0 ELSE 1)
Ends == <>done
==============================================================================

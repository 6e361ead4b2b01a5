-------------------------- MODULE AlgorithmsCases ---------------------------
EXTENDS Algorithms, Json, IOUtils
AllCases == AllVectors
VARIABLES case
INSTANCE Cases
(* `any' looks at no more than it must, and is right with what it looks at    *)
Sane == \A th \in 1 .. 2 :
           LET n == Needed(case.vs, th) IN
           /\ \A i \in 1 .. n - 1 : case.vs[i] < th
           /\ Some(case.vs, th) = 1 <=> (n > 0 /\ case.vs[n] >= th)
=============================================================================

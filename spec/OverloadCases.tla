--------------------------- MODULE OverloadCases ----------------------------
EXTENDS Overload, Json, IOUtils
AllCases == AllSets
VARIABLES case
INSTANCE Cases
(* the choice does not depend on the order in which the functions are given, *)
(* and a function is only ever chosen if it could be called on its own       *)
Flip(c) == [fns |-> [i \in Idx(c) |-> c.fns[Len(c.fns) + 1 - i]]]
Sane ==
    \A const \in BOOLEAN, t \in ArgTypes :
        LET i == Chosen(case, const, <<t>>) j == Chosen(Flip(case), const, <<t>>) IN
        /\ i = 0 <=> j = 0
        /\ i # 0 => j = Len(case.fns) + 1 - i
        /\ i # 0 => Rank(t, case.fns[i].ps[1]) # NO
=============================================================================

------------------------------ MODULE AskCases ------------------------------
EXTENDS Ask, Json, IOUtils
AllCases == AllAsked
VARIABLES case
INSTANCE Cases
(* a function that takes anything can be called if the number of arguments   *)
(* is right; one that can be called on a const object can be called on any   *)
Wide(c) == [c EXCEPT !.fn = [ps |-> [i \in DOMAIN c.fn.ps |-> <<"any", "v">>], q |-> "c"]]
Sane ==
    case.form \notin {"type", "get", "shape"} =>
        /\ Can(case) => Can(Wide(case))
        /\ Can(Wide(case)) => Len(case.fn.ps) = Len(case.own) + Len(case.args) + (IF case.form = "recursive" THEN 1 ELSE 0)
=============================================================================

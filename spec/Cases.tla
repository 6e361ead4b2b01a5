------------------------------- MODULE Cases --------------------------------
(* Prints every element of a set of cases, as one state each.               *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS AllCases
VARIABLES case
CInit == case \in AllCases /\ PrintT(<<"CASE", ToJson(case)>>)
CSpec == CInit /\ [][UNCHANGED case]_case
=============================================================================

---------------------------- MODULE LayoutCases -----------------------------
EXTENDS Layout, Json, IOUtils
Input == JsonDeserialize(IOEnv.GEN_FILE)
AllCases == IF Input.what = "lazy" THEN Trees ELSE Simple(Input.max)
VARIABLES case
INSTANCE Cases

(* the bounds make sense: never below the parts, and the loose one is looser *)
Model(k) == CASE k = "c" -> <<1, 1>> [] k = "i" -> <<4, 4>> [] k = "r" -> <<8, 8>> [] k = "d" -> <<8, 8>>
              [] k = "w" -> <<32, 32>> [] k = "v" -> <<1, 1>> [] k = "s" -> <<24, 1>> [] k = "b" -> <<48, 8>> [] k = "t" -> <<32, 8>>
Table == [k \in {"c", "i", "d", "w", "s", "b", "t", "v", "r"} |-> Model(k)]
MObs == [f |-> Table, v |-> Table, o |-> Table, size |-> 1, empty |-> 1, bare |-> 1]
Sane == /\ case.form = "lazy" => Loose(Parts(MObs, case.tree)) >= Sum(Parts(MObs, case.tree), 1)
        /\ case.form = "tuple" =>
              LET ps == Sizes(Table, case.parts) IN Sum(ps, 1) <= Struct(ps) /\ Struct(ps) <= Loose(ps)
=============================================================================

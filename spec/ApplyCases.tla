----------------------------- MODULE ApplyCases -----------------------------
EXTENDS Apply, Json, IOUtils
AllCases == AllHolders
VARIABLES case
INSTANCE Cases
(* const tuples never give non-const access to what they own, and only       *)
(* rvalues give rvalues                                                      *)
Cfg == [holder |-> case.holder, elems |-> [i \in DOMAIN case.ks |-> [k |-> case.ks[i], v |-> 0]], ret |-> 0]
Sane == \A i \in DOMAIN case.ks, cat \in Cats :
           LET e == Cfg.elems[i] g == Category(Cfg, e, cat) IN
           /\ e.k = "own" /\ cat \in {"clv", "crv"} => g \in {"clv", "crv"}
           /\ e.k \in {"own", "const"} /\ cat \in {"lv", "clv"} => g \in {"lv", "clv"}
=============================================================================

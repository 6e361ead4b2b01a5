------------------------------ MODULE PackCases -----------------------------
EXTENDS Pack, Json, IOUtils
AllCases == AllPacks
VARIABLES case
INSTANCE Cases
Cfg == [form |-> case.form, n |-> case.n, fcat |-> "lv", ret |-> 0,
        args |-> [i \in DOMAIN case.cats |-> [cat |-> case.cats[i], v |-> 0]]]
(* positions are 0, 1, ... without gaps                                      *)
Sane == LET w == Want(Cfg, Start(Cfg), <<"run", 1>>) IN
        /\ { w.index[i] : i \in DOMAIN w.index } = { i \in 0 .. 20 : i < Len(w.seen) }
        /\ \A i, j \in DOMAIN w.index : i < j => w.index[i] < w.index[j]
=============================================================================

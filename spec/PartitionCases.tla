--------------------------- MODULE PartitionCases ---------------------------
EXTENDS Partition, Json, IOUtils
AllCases == AllLists
VARIABLES case
INSTANCE Cases
Occurs(list, t) == Cardinality({ i \in DOMAIN list : list[i] = t })
Parted == Keep(case.list, case.sel) \o Drop(case.list, case.sel)
(* nothing is lost or gained; what is selected comes first                   *)
Sane == /\ \A t \in Types : Occurs(Parted, t) = Occurs(case.list, t)
        /\ \A i, j \in DOMAIN Parted : i < j /\ Parted[j] \in case.sel => Parted[i] \in case.sel
=============================================================================

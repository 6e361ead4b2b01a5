----------------------------- MODULE Partition ------------------------------
(***************************************************************************)
(* Lists of types: filter_if, partition, concat.  Types are numbers here.   *)
(* c.list, c.more: lists; c.sel: the types the predicate holds for.         *)
(* Operations: "keep" (filter_if), "drop" (filter_if with the negated       *)
(* predicate), "part" (partition), "trap" (partition with the negated       *)
(* predicate), "type" (partition_t), "plus" (list + more), "concat" (list,  *)
(* more, list), "concat0" (no lists), "one" (a single list), "user" (filter_if with a predicate of the user),  *)
(* "asked" (what the predicate says of each type of the list, as 0 or 1),   *)
(* "negated" (the same of the negated predicate)                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Sel(c) == { c.sel[i] : i \in DOMAIN c.sel }
Keep(list, S) == SelectSeq(list, LAMBDA t : t \in S)
Drop(list, S) == SelectSeq(list, LAMBDA t : t \notin S)

Start(c) == 0
Enabled(c, s, op) == TRUE
After(c, s, op, obs) == 0
Want(c, s, op) ==
    LET k == Keep(c.list, Sel(c)) d == Drop(c.list, Sel(c)) IN
    CASE op[1] \in {"keep", "user"} -> k
      [] op[1] = "drop" -> d
      [] op[1] \in {"part", "type"} -> k \o d
      [] op[1] = "trap" -> d \o k
      [] op[1] = "plus" -> c.list \o c.more
      [] op[1] = "concat" -> c.list \o c.more \o c.list
      [] op[1] = "one" -> c.list
      [] op[1] = "concat0" -> <<>>
      [] op[1] = "asked" -> [i \in DOMAIN c.list |-> IF c.list[i] \in Sel(c) THEN 1 ELSE 0]
      [] op[1] = "negated" -> [i \in DOMAIN c.list |-> IF c.list[i] \in Sel(c) THEN 0 ELSE 1]
Ok(c, s, op, obs) == obs.types = Want(c, s, op)

(* ----------------------------------------------------------------- cases *)
Types == 1 .. 4
AllLists == [list : UNION { [1 .. n -> Types] : n \in 0 .. 4 }, sel : SUBSET Types]
=============================================================================

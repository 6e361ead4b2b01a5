----------------------------- MODULE Algorithms -----------------------------
(***************************************************************************)
(* transform and any on tuples, pairs and arrays.                           *)
(*                                                                          *)
(* Operations: <<"transform", p, vs>>: the elements have the values vs, the *)
(* projection is p; <<"any", th, vs>> (and others): the predicate holds for values of at *)
(* least th; <<"anyid", vs>>: no predicate is given (elements count as true *)
(* if they are not 0).  Observed: the elements the function was called      *)
(* with, in order (position and value), and the result.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Proj(p, v) == CASE p = "number" -> v + 10
                [] p = "same" -> v
                [] p = "pair" -> v + 20
                [] p = "unique" -> v + 30
                [] p = "odd" -> v % 2
                [] p = "tuple" -> v
                [] p = "ref" -> v

(* the predicate gives a bool, a number, a pointer, something that converts  *)
(* to bool explicitly                                                        *)
Anys == {"any", "anynum", "anyptr", "anyexp"}

Start(c) == 0
Enabled(c, s, op) == op[Len(op)] # <<>> \/ c.len = 0
After(c, s, op, obs) == 0

Prefix(vs, n) == [i \in 1 .. n |-> <<i, vs[i]>>]
(* the first position that decides, or all                                  *)
Needed(vs, th) == LET hits == { i \in DOMAIN vs : vs[i] >= th }
                  IN  IF hits = {} THEN Len(vs) ELSE CHOOSE i \in hits : \A j \in hits : i <= j
Some(vs, th) == IF \E i \in DOMAIN vs : vs[i] >= th THEN 1 ELSE 0

Want(c, s, op) ==
    CASE op[1] = "transform" -> [calls |-> Prefix(op[3], Len(op[3])), res |-> [i \in DOMAIN op[3] |-> Proj(op[2], op[3][i])]]
      [] op[1] \in Anys -> [calls |-> Prefix(op[3], Needed(op[3], op[2])), res |-> <<Some(op[3], op[2])>>]
      [] op[1] = "anyid" -> [calls |-> <<>>, res |-> <<Some(op[2], 1)>>]

Ok(c, s, op, obs) ==
    LET w == Want(c, s, op) IN
    /\ obs.done = 1
    /\ obs.calls = w.calls
    /\ obs.res = w.res
    /\ obs.copies = 0

(* ----------------------------------------------------------------- cases *)
Vectors == UNION { [1 .. n -> 0 .. 2] : n \in 0 .. 4 } \cup UNION { [1 .. n -> 0 .. 1] : n \in 5 .. 8 }
AllVectors == { [vs |-> v] : v \in Vectors }
=============================================================================

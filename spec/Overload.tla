------------------------------ MODULE Overload ------------------------------
(***************************************************************************)
(* overload{ f1, ..., fn }: one callable that offers the call operators of   *)
(* all of its parts.  The specification is C++ overload resolution, for     *)
(* parameters taken by value of some representative types.                  *)
(*                                                                          *)
(* c.fns[i] = [ps, c]: the parameter types of f_i ("any" is a template      *)
(* parameter), and whether its call operator is const.  Every f_i counts    *)
(* its calls; those with a const operator report but do not change it.      *)
(*                                                                          *)
(* Operations: <<"call", cat, ts>>: call it (as lvalue, const lvalue or     *)
(* rvalue) with arguments of the types ts; <<"copy">>: go on with a copy,   *)
(* which leaves the original alone; <<"back">>: return to the original.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

ParamTypes == {"int", "long", "double", "str", "tag1", "tag2", "base", "any"}
ArgTypes == {"int", "long", "double", "char", "str", "cstr", "tag1", "tag2", "derived"}

NO == 99
(* rank of the conversion of an argument of type t to a parameter of type p  *)
Rank(t, p) ==
    LET arith == {"int", "long", "double", "char"} IN
    CASE p = "any" -> 0
      [] t = p -> 0
      [] t = "char" /\ p = "int" -> 1
      [] t \in arith /\ p \in arith -> 2
      [] t = "derived" /\ p = "base" -> 2
      [] t = "cstr" /\ p = "str" -> 3
      [] OTHER -> NO

Idx(c) == DOMAIN c.fns
(* ranks of all conversions a call of f needs, that of the object included   *)
ObjRank(const, f) == IF const THEN (IF f.c THEN 0 ELSE NO) ELSE (IF f.c THEN 1 ELSE 0)
Ranks(const, ts, f) == <<ObjRank(const, f)>> \o [k \in DOMAIN ts |-> Rank(ts[k], f.ps[k])]

Viable(c, const, ts) ==
    { i \in Idx(c) : /\ Len(c.fns[i].ps) = Len(ts)
                     /\ \A k \in DOMAIN Ranks(const, ts, c.fns[i]) : Ranks(const, ts, c.fns[i])[k] # NO }
Template(f) == \E k \in DOMAIN f.ps : f.ps[k] = "any"
(* a template for which no parameter is generic does not occur              *)
MoreSpecial(f, g) == /\ \A k \in DOMAIN f.ps : f.ps[k] = g.ps[k] \/ g.ps[k] = "any"
                     /\ \E k \in DOMAIN f.ps : f.ps[k] # "any" /\ g.ps[k] = "any"
Better(const, ts, f, g) ==
    LET a == Ranks(const, ts, f) b == Ranks(const, ts, g) IN
    /\ \A k \in DOMAIN a : a[k] <= b[k]
    /\ \/ \E k \in DOMAIN a : a[k] < b[k]
       \/ ~Template(f) /\ Template(g)
       \/ Template(f) /\ Template(g) /\ MoreSpecial(f, g)
(* 0: the call is not possible, or ambiguous                                *)
Chosen(c, const, ts) ==
    LET vs == Viable(c, const, ts)
        best == { i \in vs : \A j \in vs \ {i} : Better(const, ts, c.fns[i], c.fns[j]) }
    IN  IF best = {} THEN 0 ELSE CHOOSE i \in best : TRUE

(* ------------------------------------------------------------- component *)
Start(c) == [n |-> [i \in Idx(c) |-> 0], old |-> [i \in Idx(c) |-> 0], copied |-> FALSE]

Enabled(c, s, op) == op[1] = "call" \/ (op[1] = "copy" /\ ~s.copied) \/ (op[1] = "back" /\ s.copied)

Count(c, s, op) ==
    LET i == Chosen(c, op[2] = "clv", op[3]) IN
    IF i = 0 THEN 0 ELSE IF c.fns[i].c THEN s.n[i] ELSE s.n[i] + 1

Want(c, s, op) ==
    IF op[1] = "call" THEN [fn |-> Chosen(c, op[2] = "clv", op[3]), n |-> Count(c, s, op)] ELSE [fn |-> 0, n |-> 0]
Canon(c, s, op) == Want(c, s, op)
Ok(c, s, op, obs) == obs.done = 1 /\ obs.fn = Want(c, s, op).fn /\ obs.n = Want(c, s, op).n

After(c, s, op, obs) ==
    CASE op[1] = "copy" -> [s EXCEPT !.old = s.n, !.copied = TRUE]
      [] op[1] = "back" -> [s EXCEPT !.n = s.old, !.copied = FALSE]
      [] OTHER -> LET i == Chosen(c, op[2] = "clv", op[3]) IN
                  IF i = 0 \/ c.fns[IF i = 0 THEN 1 ELSE i].c THEN s ELSE [s EXCEPT !.n[i] = @ + 1]

(* ----------------------------------------------------------------- cases *)
Fns1 == [ps : { <<p>> : p \in ParamTypes }, c : BOOLEAN]
FnsN == { [ps |-> <<>>, c |-> TRUE], [ps |-> <<"int", "any">>, c |-> TRUE], [ps |-> <<"any", "int">>, c |-> TRUE],
          [ps |-> <<"int", "double">>, c |-> TRUE], [ps |-> <<"any", "any">>, c |-> FALSE], [ps |-> <<"str", "tag1">>, c |-> FALSE],
          [ps |-> <<"double", "double">>, c |-> TRUE] }
Sets(n) == { [fns |-> fs] : fs \in [1 .. n -> Fns1 \cup FnsN] }
AllSets == Sets(1) \cup Sets(2)
=============================================================================

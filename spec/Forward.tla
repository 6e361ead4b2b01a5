------------------------------ MODULE Forward -------------------------------
(***************************************************************************)
(* The tools with which value categories are passed on.                     *)
(*                                                                          *)
(* c.what = "types": operations (what they name is in the operation)        *)
(*   <<"like", from, to>>        like_t<from, to>; a type is <<const,       *)
(*                               volatile, ref>> (0/1, 0/1, "", "&", "&&")  *)
(*   <<"forward", like, cat>>    forward_like<like>(x), x of category cat   *)
(*   <<"nonconst", cat>>         as_nonconst(x)                             *)
(*   <<"rebind", ids>>           rebind_container_t of a list of types      *)
(* c.what = "capture": fwd_capture(x), x of category c.cat, then access;    *)
(*   the user has the variable x.  Operations: <<"var", v>>: x is assigned; *)
(*   <<"get", cat>>: access(capture) through category cat; <<"put", v>>:    *)
(*   assignment to it; <<"copy">>: go on with a copy of the capture,        *)
(*   <<"back">>: return to the original                                     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Cats == {"lv", "clv", "rv", "crv"}
Const(cat) == cat \in {"clv", "crv"}
Ref(cat) == IF cat \in {"lv", "clv"} THEN "&" ELSE "&&"
Category(const, ref) == IF ref = "&" THEN (IF const = 1 THEN "clv" ELSE "lv") ELSE (IF const = 1 THEN "crv" ELSE "rv")

Start(c) == [x |-> 0, v |-> IF c.what = "capture" THEN 0 ELSE 0, old |-> 0, copied |-> FALSE, bound |-> 0]

(* an lvalue is captured as a reference, anything else as a value            *)
Refers(c) == c.cat \in {"lv", "clv"}

(* const cannot be taken away, and an rvalue cannot become an lvalue         *)
Forwardable(like, cat) == /\ Const(cat) => like[1] = 1
                          /\ cat \in {"rv", "crv"} => like[3] # "&"
Enabled(c, s, op) ==
    CASE op[1] = "forward" -> Forwardable(op[2], op[3])
      [] op[1] = "put" -> c.cat \in {"lv", "rv"}
      [] op[1] = "copy" -> ~s.copied
      [] op[1] = "back" -> s.copied
      [] OTHER -> TRUE

(* access through a capture of category cat                                  *)
Seen(c, cat) ==
    CASE c.cat = "lv" -> "lv"
      [] c.cat = "clv" -> "clv"
      [] c.cat = "rv" -> cat
      [] c.cat = "crv" -> IF cat \in {"lv", "clv"} THEN "clv" ELSE "crv"

Want(c, s, op) ==
    CASE op[1] = "like" -> [t |-> op[2]]
      [] op[1] = "forward" -> [cat |-> Category(op[2][1], op[2][3]), same |-> 1, copies |-> 0]
      [] op[1] = "nonconst" -> [cat |-> Category(0, Ref(op[2])), same |-> 1, copies |-> 0]
      [] op[1] = "rebind" -> [ids |-> op[2]]
      [] op[1] = "get" -> [cat |-> Seen(c, op[2]), v |-> IF Refers(c) THEN s.x ELSE s.v, same |-> IF Refers(c) THEN 1 ELSE 0, copies |-> 0]
      [] OTHER -> [done |-> 1]
Canon(c, s, op) == Want(c, s, op)
Ok(c, s, op, obs) == \A k \in DOMAIN Want(c, s, op) : obs[k] = Want(c, s, op)[k]

After(c, s, op, obs) ==
    CASE op[1] = "var" -> [s EXCEPT !.x = op[2]]
      [] op[1] = "put" -> IF Refers(c) THEN [s EXCEPT !.x = op[2]] ELSE [s EXCEPT !.v = op[2]]
      [] op[1] = "copy" -> [s EXCEPT !.old = s.v, !.copied = TRUE]
      [] op[1] = "back" -> [s EXCEPT !.v = s.old, !.copied = FALSE]
      [] OTHER -> s

(* ----------------------------------------------------------------- cases *)
Bits == {0, 1}
AllTypes == Bits \X Bits \X {"", "&", "&&"}
AllTypeOps ==
    { <<"like", f, t>> : f \in AllTypes, t \in AllTypes }
    \cup { op \in { <<"forward", l, cat>> : l \in { t \in AllTypes : t[2] = 0 }, cat \in Cats } : Forwardable(op[2], op[3]) }
    \cup { <<"nonconst", cat>> : cat \in Cats }
    \cup { <<"rebind", ids>> : ids \in UNION { [1 .. n -> 1 .. 4] : n \in 0 .. 4 } }

(* ------------------------------------------------- generation of scripts *)
Ops(c, s) ==
    { op \in { <<"var", v>> : v \in 0 .. 1 } \cup { <<"put", v>> : v \in 0 .. 1 } \cup { <<"get", cat>> : cat \in Cats } \cup {<<"copy">>, <<"back">>} :
        Enabled(c, s, op) }
Probe(c, s) == << <<"get", "lv">> >>
Quiet(op) == op[1] = "var"
(* what is captured by value does not depend on the variable                 *)
OwnValue(c, s, t, op) == /\ ~Refers(c) /\ op[1] = "var" => t.v = s.v
                         /\ ~Refers(c) /\ op[1] = "put" => t.x = s.x
=============================================================================

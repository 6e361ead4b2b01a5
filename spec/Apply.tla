------------------------------- MODULE Apply --------------------------------
(***************************************************************************)
(* apply(f, t) calls f with the elements of t, and to_tuple(t) gives        *)
(* references to them.                                                      *)
(*                                                                          *)
(* c.holder  what t is: "ct" (compressed_tuple), "tup", "pr", "ar" (those   *)
(*           of the standard library)                                       *)
(* c.elems   [k, v]: kind of the element ("own", "const", "ref", "cref",    *)
(*           "empty") and the value it has (or the name of the empty class) *)
(* c.ret     0: f returns a number made from its arguments; j: a reference  *)
(*           to its argument j; -1: nothing                                 *)
(* Operations: <<"apply", cat, fcat>>: t and f are passed as lvalue, const  *)
(* lvalue, rvalue or const rvalue; <<"to_tuple", cat>>                      *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Idx(c) == DOMAIN c.elems
Cats == {"lv", "clv", "rv", "crv"}

(* what an element looks like through a tuple of category cat                *)
Category(c, e, cat) ==
    CASE e.k = "own"   -> cat
      [] e.k = "const" -> IF cat \in {"lv", "clv"} THEN "clv" ELSE "crv"
      [] e.k = "ref"   -> IF c.holder # "ct" THEN "lv" ELSE IF cat \in {"lv", "clv"} THEN cat ELSE "any"
      [] e.k = "cref"  -> IF c.holder # "ct" \/ cat \in {"lv", "clv"} THEN "clv" ELSE "any"
      [] e.k = "empty" -> IF c.holder = "ct" THEN "rv" ELSE cat
Place(c, e) == CASE e.k \in {"own", "const"} -> "tuple" [] e.k \in {"ref", "cref"} -> "var"
                 [] e.k = "empty" -> "any"

RECURSIVE Mix(_)
Mix(vs) == IF vs = <<>> THEN 1 ELSE (Mix(SubSeq(vs, 1, Len(vs) - 1)) * 5 + vs[Len(vs)]) % 9973

Values(c) == [i \in Idx(c) |-> c.elems[i].v]
Seen(c, cat) ==
    [ seen |-> Values(c),
      cats |-> [i \in Idx(c) |-> Category(c, c.elems[i], cat)],
      at |-> [i \in Idx(c) |-> Place(c, c.elems[i])],
      copies |-> 0 ]

Start(c) == 0
Enabled(c, s, op) == TRUE
After(c, s, op, obs) == 0
Want(c, s, op) ==
    IF op[1] = "apply"
    THEN Seen(c, op[2]) @@ [ f |-> op[3], calls |-> 1,
                             ret |-> IF c.ret = 0 THEN Mix(Values(c)) ELSE 0,
                             rat |-> IF c.ret > 0 THEN Place(c, c.elems[c.ret]) ELSE IF c.ret = 0 THEN "value" ELSE "void" ]
    ELSE Seen(c, op[2])

Like(w, g) == w = "any" \/ w = g
(* an element that is not stored can only be looked at during the call       *)
Ok(c, s, op, obs) ==
    LET w == Want(c, s, op) IN
    /\ obs.done = 1
    /\ Len(obs.seen) = Len(c.elems)
    /\ \A i \in Idx(c) :
          /\ (op[1] = "apply" \/ c.elems[i].k # "empty") => obs.seen[i] = w.seen[i]
          /\ Like(w.cats[i], obs.cats[i])
          /\ Like(w.at[i], obs.at[i])
    /\ obs.copies = 0
    /\ op[1] = "apply" => obs.f = w.f /\ obs.calls = 1 /\ obs.ret = w.ret /\ Like(w.rat, obs.rat)

(* ----------------------------------------------------------------- cases *)
Ks == {"own", "const", "ref", "cref", "empty"}
Holders == [holder : {"ct", "tup"}, ks : UNION { [1 .. n -> Ks] : n \in 0 .. 3 }]
           \cup [holder : {"pr"}, ks : [1 .. 2 -> Ks]]
           \cup [holder : {"ar"}, ks : UNION { [1 .. n -> {"own"}] : n \in 1 .. 4 }]
AllHolders == Holders
=============================================================================

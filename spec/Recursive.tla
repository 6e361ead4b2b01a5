----------------------------- MODULE Recursive ------------------------------
(***************************************************************************)
(* recursive{ f }: a callable that calls f with itself as first argument.   *)
(*                                                                          *)
(* The f of the programs counts its own invocations, and calls self again:  *)
(*    f(self, d, x) = 1                                       if d = 0      *)
(*                    1 + self(d - 1, x) + 2 * self(d - 2, x)               *)
(* c.self  how f takes self: "value", "ref" (as what it is), "fwd" (the     *)
(*         same, and f forwards it for the inner calls), "cref"             *)
(* c.op    call operators of f: "all" (one for each value category of the   *)
(*         object; those for const objects cannot count), "mut" (for        *)
(*         objects that are not const), "con" (const, cannot count)         *)
(* c.ret   0: a number is returned; 1: a reference to x; -1: nothing        *)
(* c.maxn  bound of the counter in generated scripts                        *)
(*                                                                          *)
(* Operations: <<"call", cat, d, xcat>>: call it as lvalue, ..., with x an  *)
(* lvalue, ...; <<"copy">>: go on with a copy, which leaves the original    *)
(* alone; <<"back">>: return to the original.                               *)
(* Observed: the invocations of f in order (d, its counter, how *this, self *)
(* and x were passed, whether *this is the object that was called, whether  *)
(* self is *this), and the result.                                          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Cats == {"lv", "clv", "rv", "crv"}
Const(cat) == cat \in {"clv", "crv"}
Counts(c, cat) == c.op = "mut" \/ (c.op = "all" /\ ~Const(cat))

SelfCat(c, cat) == CASE c.self = "value" -> "value" [] c.self = "cref" -> "clv" [] OTHER -> cat
(* the category of self in the inner calls                                   *)
InnerCat(c, cat) ==
    CASE c.self = "value" -> "lv"
      [] c.self = "cref" -> "clv"
      [] c.self = "ref" -> IF Const(cat) THEN "clv" ELSE "lv"
      [] c.self = "fwd" -> cat
InnerX(xcat) == IF xcat = "clv" THEN "clv" ELSE "lv"

(* run(d, cat, xcat, m, root): f is called on an object whose counter is m;  *)
(* gives the invocations, the counter of the object after it, the number     *)
RECURSIVE Run(_, _, _, _, _, _)
Run(c, d, cat, xcat, m, root) ==
    LET m1 == IF Counts(c, cat) THEN m + 1 ELSE m
        me == [ d |-> d, n |-> m1, this |-> IF c.op = "all" THEN cat ELSE "any", self |-> SelfCat(c, cat), x |-> xcat,
                root |-> IF root THEN 1 ELSE 0, same |-> IF c.self = "value" THEN 0 ELSE 1 ]
        byval == c.self = "value"
        ic == InnerCat(c, cat)
        ix == InnerX(xcat)
        r1 == IF d >= 1 THEN Run(c, d - 1, ic, ix, IF byval THEN m ELSE m1, root /\ ~byval)
              ELSE [calls |-> <<>>, n |-> IF byval THEN m ELSE m1, r |-> 0]
        r2 == IF d >= 2 THEN Run(c, d - 2, ic, ix, r1.n, root /\ ~byval)
              ELSE [calls |-> <<>>, n |-> r1.n, r |-> 0]
    IN  [ calls |-> <<me>> \o r1.calls \o r2.calls,
          n |-> IF byval THEN m1 ELSE r2.n,
          r |-> 1 + r1.r + 2 * r2.r ]

Start(c) == [n |-> 0, old |-> 0, copied |-> FALSE]

Callable(c, cat, d) ==
    /\ c.op = "mut" => ~Const(cat) /\ (c.self = "cref" => d = 0)
Enabled(c, s, op) ==
    CASE op[1] = "call" -> Callable(c, op[2], op[3])
      [] op[1] = "copy" -> ~s.copied
      [] op[1] = "back" -> s.copied

Want(c, s, op) ==
    IF op[1] = "call"
    THEN LET r == Run(c, op[3], op[2], op[4], s.n, TRUE) IN
         [ calls |-> r.calls, r |-> IF c.ret = 0 THEN r.r ELSE 0,
           rat |-> CASE c.ret = 0 -> "value" [] c.ret = 1 -> "x" [] OTHER -> "void",
           copies |-> IF c.self = "value" THEN -1 ELSE 0 ]
    ELSE [copies |-> -1]
Canon(c, s, op) == Want(c, s, op)

SameCall(w, g) == /\ \A k \in {"d", "n", "self", "x", "root", "same"} : w[k] = g[k]
                  /\ w.this \in {"any", g.this}
Ok(c, s, op, obs) ==
    LET w == Want(c, s, op) IN
    /\ obs.done = 1
    /\ op[1] = "call" =>
          /\ Len(obs.calls) = Len(w.calls)
          /\ \A k \in DOMAIN w.calls : SameCall(w.calls[k], obs.calls[k])
          /\ obs.r = w.r
          /\ obs.rat = w.rat
          /\ w.copies = 0 => obs.copies = 0

After(c, s, op, obs) ==
    CASE op[1] = "copy" -> [s EXCEPT !.old = s.n, !.copied = TRUE]
      [] op[1] = "back" -> [s EXCEPT !.n = s.old, !.copied = FALSE]
      [] OTHER -> [s EXCEPT !.n = Run(c, op[3], op[2], op[4], s.n, TRUE).n]

(* ------------------------------------------------- generation of scripts *)
Ops(c, s) ==
    { op \in { <<"call", cat, d, x>> : cat \in Cats, d \in 0 .. c.maxd, x \in {"lv", "clv", "rv"} } \cup {<<"copy">>, <<"back">>} :
        Enabled(c, s, op) /\ (op[1] = "call" => s.n < c.maxn) }
Probe(c, s) == << <<"call", IF c.op = "mut" THEN "lv" ELSE "clv", 0, "lv">> >>
Quiet(op) == FALSE

(* by reference, the object sees every invocation; by value only the outer   *)
Counted(c, s, t, op) ==
    op[1] = "call" =>
        LET k == Len(Run(c, op[3], op[2], op[4], s.n, TRUE).calls) IN
        /\ c.self \in {"ref", "fwd"} => t.n = s.n + (IF Counts(c, op[2]) THEN k ELSE 0)
        /\ c.self = "value" => t.n = s.n + (IF Counts(c, op[2]) THEN 1 ELSE 0)
        /\ ~s.copied => s.old = t.old
=============================================================================

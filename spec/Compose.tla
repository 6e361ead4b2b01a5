------------------------------ MODULE Compose -------------------------------
(***************************************************************************)
(* Constructs inside constructs.  A program is a tree of them, e.g.          *)
(*    overload{ tuple{ 1, 2 } >> uncaptured(3) >> f, recursive{ g } }        *)
(* and means what its parts mean, whatever they are put into:                *)
(*    leaf      a function: counts its invocations (kind "free": does not),  *)
(*              returns a number (kind "void": nothing)                      *)
(*    front     values >> f, bind_front(f, values...): f(values, arguments)  *)
(*    back      values << f, bind_back(f, values...), uncaptured(values) >> f*)
(*              f(arguments, values)                                         *)
(*    rec       recursive{ g }, where g(self, arguments) calls self with the *)
(*              arguments (which then calls f with them), and then f         *)
(*    ovl       overload{ fs... } of functions with different numbers of     *)
(*              arguments                                                    *)
(*    reg,unreg regularized_void(f), unregularized_void(f)                   *)
(*    same      f as an element of a compressed tuple, f in a capture, f     *)
(*              applied to the arguments as a tuple                          *)
(*    lazy      lazy(f, deps...), each of which is a value or a tree         *)
(*                                                                          *)
(* The state of an object: the counters of its leaves, the caches of its     *)
(* lazies.  Operations: call with given arguments, copy, move, drop of       *)
(* objects, and arm: the next invocation of a leaf throws.                   *)
(* Observed of a call: per leaf, its invocations (counter, arguments,        *)
(* result); the result, its type, or that the exception came out.            *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Void == -2

RECURSIVE Hash(_, _)
Hash(r, args) == IF args = <<>> THEN r ELSE Hash((r * 7 + Head(args)) % 97, Tail(args))

(* numbers of arguments a tree can be called with                           *)
RECURSIVE Arities(_)
Arities(t) ==
    CASE t.k = "leaf" -> {t.ar}
      [] t.k \in {"front", "back"} -> { a - Len(t.vals) : a \in { b \in Arities(t.f) : b >= Len(t.vals) } }
      [] t.k \in {"rec", "reg", "unreg", "same"} -> Arities(t.f)
      [] t.k = "ovl" -> UNION { Arities(t.fs[i]) : i \in DOMAIN t.fs }
      [] t.k = "lazy" -> {0}
Member(t, n) == t.fs[CHOOSE i \in DOMAIN t.fs : n \in Arities(t.fs[i])]

(* what the type of the result is                                           *)
RECURSIVE Type(_, _)
Type(t, n) ==
    CASE t.k = "leaf" -> IF t.kind = "void" THEN "void" ELSE "int"
      [] t.k \in {"front", "back"} -> Type(t.f, n + Len(t.vals))
      [] t.k \in {"rec", "same"} -> Type(t.f, n)
      [] t.k = "reg" -> IF Type(t.f, n) = "void" THEN "regular_void" ELSE Type(t.f, n)
      [] t.k = "unreg" -> IF Type(t.f, n) = "regular_void" THEN "void" ELSE Type(t.f, n)
      [] t.k = "ovl" -> Type(Member(t, n), n)
      [] t.k = "lazy" -> IF Type(t.f, Len(t.deps)) = "int" THEN "int" ELSE "void"

(* state while a call is running: o (counters n, caches c), log, armed       *)
(* leaves, whether an exception is on its way, result of what ran last       *)
RECURSIVE Eval(_, _, _), Deps(_, _, _)
Eval(t, args, w) ==
    IF w.thrown THEN w
    ELSE CASE t.k = "leaf" ->
              LET n == IF t.kind = "free" THEN 0 ELSE w.o.n[t.id] + 1
                  boom == t.id \in w.arm
                  r == IF boom THEN -1 ELSE IF t.kind = "void" THEN Void ELSE Hash((3 * t.id + n) % 97, args)
              IN  [w EXCEPT !.o.n[t.id] = n, !.log = Append(@, [id |-> t.id, n |-> n, a |-> args, r |-> r]),
                            !.arm = @ \ {t.id}, !.thrown = boom, !.r = r]
      [] t.k = "front" -> Eval(t.f, t.vals \o args, w)
      [] t.k = "back" -> Eval(t.f, args \o t.vals, w)
      [] t.k = "rec" -> Eval(t.f, args, Eval(t.f, args, w))
      [] t.k \in {"reg", "unreg", "same"} -> Eval(t.f, args, w)
      [] t.k = "ovl" -> Eval(Member(t, Len(args)), args, w)
      [] t.k = "lazy" ->
              LET d == Deps(t.deps, <<>>, w)
                  c == d.w.o.c[t.id]
                  e == Eval(t.f, d.args, d.w)
              IN  IF c.has /\ c.args = d.args
                  THEN [d.w EXCEPT !.r = c.r]
                  ELSE [e EXCEPT !.o.c[t.id] = [has |-> TRUE, args |-> d.args, r |-> e.r]]
Deps(deps, args, w) ==
    IF deps = <<>> THEN [args |-> args, w |-> w]
    ELSE LET d == Head(deps)
             e == Eval(d, <<>>, w)
         IN  IF d.k = "val" THEN Deps(Tail(deps), Append(args, d.x), w)
             ELSE Deps(Tail(deps), Append(args, e.r), e)

NoCache == [has |-> FALSE, args |-> <<>>, r |-> 0]
New(c) == [live |-> TRUE, n |-> [i \in 1 .. c.leaves |-> 0], c |-> [i \in 1 .. c.lazies |-> NoCache]]
Start(c) == [objs |-> << New(c) >>, arm |-> {}]

Call(c, s, op) == Eval(c.tree, op[3], [o |-> s.objs[op[2]], log |-> <<>>, arm |-> s.arm, thrown |-> FALSE, r |-> 0])

Live(s) == { o \in DOMAIN s.objs : s.objs[o].live }
Enabled(c, s, op) ==
    CASE op[1] = "tree" -> TRUE
      [] op[1] = "call" -> op[2] \in Live(s) /\ Len(op[3]) \in Arities(c.tree)
      [] op[1] \in {"copy", "move", "drop"} -> op[2] \in Live(s)
      [] op[1] = "arm" -> c.lazies = 0 /\ op[2] \in 1 .. c.leaves

(* whether it can be called with 0, 1, ... 5 arguments, where that may be    *)
(* asked (functions within void adapters cannot be)                          *)
Want(c, s, op) ==
    IF op[1] = "call"
    THEN LET e == Call(c, s, op) IN
         [ log |-> e.log, r |-> IF e.thrown THEN -1 ELSE e.r, thrown |-> IF e.thrown THEN 1 ELSE 0,
           type |-> Type(c.tree, Len(op[3])), asked |-> { n \in 0 .. 5 : c.ask /\ n \in Arities(c.tree) } ]
    ELSE [done |-> 1]
Canon(c, s, op) == Want(c, s, op)

Of(log, id) == SelectSeq(log, LAMBDA x : x.id = id)
Ok(c, s, op, obs) ==
    op[1] = "call" =>
        LET w == Want(c, s, op) IN
        /\ Len(obs.log) = Len(w.log)
        /\ \A i \in 1 .. c.leaves : Of(obs.log, i) = Of(w.log, i)
        /\ obs.r = w.r
        /\ obs.thrown = w.thrown
        /\ obs.type = w.type
        /\ c.ask => { n \in 0 .. 5 : obs.asked[n + 1] = 1 } = w.asked

After(c, s, op, obs) ==
    CASE op[1] = "call" -> LET e == Call(c, s, op) IN [s EXCEPT !.objs[op[2]] = e.o, !.arm = e.arm]
      [] op[1] = "copy" -> [s EXCEPT !.objs = Append(@, s.objs[op[2]])]
      [] op[1] = "move" -> [s EXCEPT !.objs = Append([@ EXCEPT ![op[2]].live = FALSE], s.objs[op[2]])]
      [] op[1] = "drop" -> [s EXCEPT !.objs[op[2]].live = FALSE]
      [] op[1] = "arm" -> [s EXCEPT !.arm = @ \cup {op[2]}]
      [] OTHER -> s

(* ------------------------------------------------- generation of scripts *)
Args(n) == IF n = 0 THEN {<<>>} ELSE [1 .. n -> 1 .. 2]
Ops(c, s) ==
    { op \in ({ <<"call", o, a>> : o \in Live(s), a \in UNION { Args(n) : n \in Arities(c.tree) } }
              \cup { <<k, o>> : k \in {"copy", "move", "drop"}, o \in Live(s) }
              \cup { <<"arm", i>> : i \in 1 .. c.leaves }) :
        /\ Enabled(c, s, op)
        /\ op[1] \in {"copy", "move"} => Len(s.objs) < c.objs
        /\ op[1] = "arm" => s.arm = {}
        /\ op[1] = "drop" => Cardinality(Live(s)) > 1
        /\ op[1] = "call" => \A i \in 1 .. c.leaves : s.objs[op[2]].n[i] < c.maxn }
Probe(c, s) == << >>
Quiet(op) == op[1] \in {"copy", "move", "drop", "arm"}

(* ------------------------------------------- facts about the composition *)
(* a tree without its wrappers: values gathered at the leaf                  *)
Bare(c, t, args) ==
    LET w == [o |-> New(c), log |-> <<>>, arm |-> {}, thrown |-> FALSE, r |-> 0] IN Eval(t, args, w)
RECURSIVE Flat(_, _)
Flat(t, args) ==
    CASE t.k = "front" -> Flat(t.f, t.vals \o args)
      [] t.k = "back" -> Flat(t.f, args \o t.vals)
      [] t.k \in {"reg", "unreg", "same"} -> Flat(t.f, args)
      [] t.k = "ovl" -> Flat(Member(t, Len(args)), args)
      [] OTHER -> <<t, args>>

(* objects do not influence one another; what a call does depends on its     *)
(* own object alone; wrappers only pass on                                   *)
Composed(c, s, t, op) ==
    /\ op[1] = "call" =>
          /\ \A o \in DOMAIN s.objs : o # op[2] => t.objs[o] = s.objs[o]
          /\ LET f == Flat(c.tree, op[3])
                 a == Bare(c, c.tree, op[3])
                 b == Bare(c, f[1], f[2])
             IN  a.r = b.r /\ a.log = b.log /\ a.o = b.o
    /\ op[1] \in {"copy", "move"} => t.objs[Len(t.objs)] = s.objs[op[2]]
=============================================================================

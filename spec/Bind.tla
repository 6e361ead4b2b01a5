-------------------------------- MODULE Bind --------------------------------
(***************************************************************************)
(* Callables with some of their arguments bound: tuple >> f (the elements   *)
(* of the tuple come first), tuple << f (they come last), and               *)
(* bind_back(f, xs...) (xs come last).                                      *)
(*                                                                          *)
(* Configuration:                                                           *)
(*   c.form   "front", "back" (from tuples), "bback" (bind_back), "uncap"   *)
(*            (uncaptured(xs...) >> f: the xs come last, and are copied)    *)
(*   c.elems  what is bound: [k, id, n]; k is "own" (the tuple, or the      *)
(*            binding, holds the value), "ref" (it refers to a variable of  *)
(*            the user), "empty" (a value of an empty class, named id)      *)
(*   c.tuple  "own": the tuple is given to the binding; "ref": it stays     *)
(*            with the user, who has one in each bank                       *)
(*   c.fn     "own": the binding holds the callable, which counts its       *)
(*            calls; "ref": the user does; "empty": it has no state         *)
(*   c.args   number of variables of the user that are passed in calls      *)
(*   c.an     number of values they can have                                *)
(*   c.ret    0: f returns a number made from its arguments; j > 0: f       *)
(*            returns a reference to its argument number j                  *)
(*                                                                          *)
(* In every call f can write to one of its arguments ("poke"): what it      *)
(* writes to must be there for the next call, and nowhere else.             *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

UNKNOWN == -1
Idx(c) == DOMAIN c.elems
Objs(c) == 1 .. c.objs
Banks == 1 .. 2
NONE == [alive |-> FALSE, bank |-> 0, v |-> <<>>, n |-> 0]

(* is the value of element i inside the binding?                            *)
Inside(c, i) == c.elems[i].k = "own" /\ c.tuple = "own"

Start(c) ==
    [ vars |-> [b \in Banks |-> [i \in Idx(c) |-> 0]],
      args |-> [j \in 1 .. c.args |-> 0],
      n |-> 0,                                   \* calls of the user's own callable
      objs |-> [o \in Objs(c) |-> NONE] ]

Value(c, s, ob, i) ==
    IF c.elems[i].k = "empty" THEN c.elems[i].id
    ELSE IF Inside(c, i) THEN ob.v[i] ELSE s.vars[ob.bank][i]

(* a call passes the first Len(cats) of the user's variables.  Parameters   *)
(* of f: <<"b", i>> is bound element i, <<"a", j>> argument j of the call   *)
Bound(c) == [i \in Idx(c) |-> <<"b", i>>]
Passed(cats) == [j \in DOMAIN cats |-> <<"a", j>>]
Params(c, cats) == IF c.form = "front" THEN Bound(c) \o Passed(cats) ELSE Passed(cats) \o Bound(c)

ParamValue(c, s, ob, p) == IF p[1] = "b" THEN Value(c, s, ob, p[2]) ELSE s.args[p[2]]
Place(c, ob, cats, p) ==
    IF p[1] = "a" THEN (IF cats[p[2]] = "rv" THEN "any" ELSE "arg")
    ELSE IF c.elems[p[2]].k = "empty" THEN "any"
    ELSE IF Inside(c, p[2]) THEN "binding" ELSE <<"bank1", "bank2">>[ob.bank]

(* operations: <<"call", o, cats, j, x>>: f writes x to its parameter j      *)
(* (0: to none); <<"ccall", o, cats>>: the binding is called as const        *)
Writable(c, cats, p) ==
    IF p[1] = "a" THEN cats[p[2]] # "clv" ELSE c.elems[p[2]].k # "empty"

Alive(s, o) == s.objs[o].alive
Movers == {"copy", "move"}
Copyable(c) == c.fn # "moveonly" /\ \A i \in Idx(c) : ~(Inside(c, i) /\ c.elems[i].mo)

Enabled(c, s, op) ==
    LET n == op[1] IN
    CASE n = "var" -> TRUE
      [] n = "arg" -> TRUE
      [] n = "make" -> TRUE
      [] n = "copy" -> Alive(s, op[3]) /\ op[2] # op[3] /\ Copyable(c)
      [] n = "move" -> Alive(s, op[3]) /\ op[2] # op[3]
      [] n = "drop" -> Alive(s, op[2])
      [] n = "vars" -> TRUE
      [] n = "call" -> /\ Alive(s, op[2])
                       /\ Len(op[3]) <= c.args
                       /\ op[4] \in 0 .. Len(Params(c, op[3]))
                       /\ op[4] > 0 => Writable(c, op[3], Params(c, op[3])[op[4]])
                       /\ c.ret = 0 \/ c.ret <= Len(Params(c, op[3]))
      [] n = "ccall" -> /\ Alive(s, op[2])
                        /\ Len(op[3]) <= c.args
                        /\ c.form # "bback"
                        /\ c.ret = 0
      [] OTHER -> FALSE

Bump(n) == IF n = UNKNOWN THEN UNKNOWN ELSE n + 1

Called(c, s, o) ==
    CASE c.fn \in {"own", "moveonly"} -> [s EXCEPT !.objs[o].n = Bump(@)]
      [] c.fn = "ref" -> [s EXCEPT !.n = Bump(@)]
      [] OTHER -> s

Poked(c, s, o, p, cats, x) ==
    IF p[1] = "a" THEN (IF cats[p[2]] = "lv" THEN [s EXCEPT !.args[p[2]] = x] ELSE s)
    ELSE IF Inside(c, p[2]) THEN [s EXCEPT !.objs[o].v[p[2]] = x]
    ELSE [s EXCEPT !.vars[s.objs[o].bank][p[2]] = x]

Husk(c, ob) == [ob EXCEPT !.v = [i \in Idx(c) |-> IF Inside(c, i) THEN UNKNOWN ELSE ob.v[i]], !.n = UNKNOWN]

After(c, s, op, obs) ==
    LET n == op[1] IN
    CASE n = "var" -> [s EXCEPT !.vars[op[2]][op[3]] = op[4]]
      [] n = "arg" -> [s EXCEPT !.args[op[2]] = op[3]]
      [] n = "make" -> [s EXCEPT !.objs[op[2]] =
              [alive |-> TRUE, bank |-> op[3], n |-> 0,
               v |-> [i \in Idx(c) |-> IF Inside(c, i) THEN s.vars[op[3]][i] ELSE 0]]]
      [] n = "copy" -> [s EXCEPT !.objs[op[2]] = s.objs[op[3]]]
      [] n = "move" -> [s EXCEPT !.objs[op[2]] = s.objs[op[3]], !.objs[op[3]] = Husk(c, @)]
      [] n = "drop" -> [s EXCEPT !.objs[op[2]] = NONE]
      [] n = "call" ->
            LET t == Called(c, s, op[2])
            IN  IF op[4] = 0 THEN t ELSE Poked(c, t, op[2], Params(c, op[3])[op[4]], op[3], op[5])
      [] OTHER -> s

(* the number f makes of its arguments                                       *)
RECURSIVE Mix(_)
Mix(vs) == IF vs = <<>> THEN 1 ELSE (Mix(SubSeq(vs, 1, Len(vs) - 1)) * 5 + vs[Len(vs)]) % 9973

CallObs(c, s, op) ==
    LET ob == s.objs[op[2]]
        ps == Params(c, op[3])
        vs == [k \in DOMAIN ps |-> ParamValue(c, s, ob, ps[k])]
        n0 == CASE c.fn \in {"own", "moveonly"} -> ob.n [] c.fn = "ref" -> s.n [] OTHER -> 0
    IN  [ seen |-> vs,
          at |-> [k \in DOMAIN ps |-> Place(c, ob, op[3], ps[k])],
          n |-> IF op[1] = "call" /\ c.fn # "empty" THEN Bump(n0) ELSE n0,
          ret |-> IF c.ret > 0 THEN UNKNOWN
                  ELSE IF \E k \in DOMAIN vs : vs[k] = UNKNOWN THEN UNKNOWN ELSE Mix(vs),
          rat |-> IF c.ret > 0 THEN Place(c, ob, op[3], ps[c.ret]) ELSE "value",
          copies |-> 0 ]

Want(c, s, op) ==
    CASE op[1] \in {"call", "ccall"} -> CallObs(c, s, op)
      [] op[1] = "vars" -> [v |-> s.vars, a |-> s.args]
      [] op[1] \in {"make", "move"} -> [copies |-> 0]
      [] OTHER -> [done |-> 1]
Canon(c, s, op) == Want(c, s, op)

Same(want, got) == want = UNKNOWN \/ want = got
Like(want, got) == want = "any" \/ want = got

Ok(c, s, op, obs) ==
    LET w == Want(c, s, op) IN
    /\ obs.done = 1
    /\ CASE op[1] \in {"call", "ccall"} ->
              /\ Len(obs.seen) = Len(w.seen)
              /\ \A k \in DOMAIN w.seen : Same(w.seen[k], obs.seen[k])
              /\ c.what \in {"order", "all"} => Same(w.ret, obs.ret)
              /\ c.what \in {"state", "all"} => /\ \A k \in DOMAIN w.at : Like(w.at[k], obs.at[k])
                                     /\ Same(w.n, obs.n)
                                     /\ Like(w.rat, obs.rat)
                                     /\ obs.copies = 0
         [] op[1] = "vars" -> c.what \in {"state", "all"} => obs.v = w.v /\ obs.a = w.a
         [] op[1] \in {"make", "move"} -> c.what = "state" /\ c.form # "uncap" => obs.copies = 0
         [] OTHER -> TRUE

(* ------------------------------------------------- generation of scripts *)
CatSeqs(c) == UNION { [1 .. k -> {"lv", "clv", "rv"}] : k \in 0 .. c.args }

Ops(c, s) ==
    LET all == UNION {
          { <<"var", b, i, x>> : b \in 1 .. c.banks, i \in { j \in Idx(c) : c.elems[j].k # "empty" }, x \in 0 .. 1 },
          { <<"arg", j, x>> : j \in 1 .. c.args, x \in 0 .. 1 },
          { <<"make", o, b>> : o \in Objs(c), b \in 1 .. c.banks },
          { <<n, o, p>> : n \in Movers, o \in Objs(c), p \in Objs(c) },
          { <<"call", o, cs, j, x>> : o \in Objs(c), cs \in CatSeqs(c), j \in 0 .. Len(c.elems) + c.args, x \in 0 .. 1 },
          { <<"ccall", o, cs>> : o \in Objs(c), cs \in CatSeqs(c) } }
    IN  { op \in all : /\ Enabled(c, s, op)
                       /\ op[1] = "call" /\ op[4] = 0 => op[5] = 0
                       /\ op[1] = "call" => s.n < c.maxn /\ s.objs[op[2]].n < c.maxn
                       /\ op[1] = "var" => op[4] # s.vars[op[2]][op[3]]
                       /\ op[1] = "arg" => op[3] # s.args[op[2]] }

(* all objects are called, and the variables read                            *)
Probe(c, s) ==
    LET cs == [j \in 1 .. c.args |-> "lv"]
        alive == SelectSeq([o \in Objs(c) |-> o], LAMBDA o : Alive(s, o) /\ Enabled(c, s, <<"call", o, cs, 0, 0>>))
    IN  [k \in DOMAIN alive |-> <<"call", alive[k], cs, 0, 0>>] \o <<<<"vars">>>>
Quiet(op) == op[1] \in {"var", "arg"}

(* ------------------------------------------------------------ properties *)
(* a call changes at most the callable's state and what f itself wrote to;   *)
(* other bindings that own their parts are not affected by anything          *)
Contained(c, s, t, op) ==
    /\ op[1] = "call" /\ op[4] = 0 =>
          t.vars = s.vars /\ t.args = s.args /\ \A o \in Objs(c) : t.objs[o].v = s.objs[o].v
    /\ op[1] \notin {"var"} /\ t.vars # s.vars => op[1] = "call" /\ op[4] > 0
    /\ \A o \in Objs(c) : o \notin {op[2], IF op[1] = "move" THEN op[3] ELSE op[2]} => t.objs[o] = s.objs[o]
=============================================================================

------------------------------- MODULE Tuple --------------------------------
(***************************************************************************)
(* Compressed tuples as objects: what their elements are, and how they      *)
(* react to construction, copying, moving, assignment, reading and writing. *)
(*                                                                          *)
(* A configuration is a sequence of element kinds, c.elems[i]:              *)
(*   .k   "own"    the tuple holds a value of its own                       *)
(*        "const"  the same, but the element type is const                  *)
(*        "ref"    the element is an lvalue reference                       *)
(*        "cref"   the element is an lvalue reference to const              *)
(*        "empty"  the element is a value of an empty class                 *)
(*   .mo  TRUE: the element type can be moved but not copied                *)
(*   .nd  TRUE: the element type cannot be default-constructed              *)
(*   .id  for empty elements: which empty class it is                       *)
(*   .n   the number of values of the element type that are used            *)
(*                                                                          *)
(* The user has two banks of variables, one variable per element, from      *)
(* which tuples are made.  A state holds the variables and up to c.objs     *)
(* tuples; a tuple is a sequence with the value of each element it owns     *)
(* (UNKNOWN after it was moved from) or the bank its reference refers to.   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

UNKNOWN == -1
NONE == [alive |-> FALSE, v |-> <<>>]
Obj(v) == [alive |-> TRUE, v |-> v]

Idx(c) == DOMAIN c.elems
Objs(c) == 1 .. c.objs
Banks == 1 .. 2
Owns(e) == e.k \in {"own", "const"}
IsRef(e) == e.k \in {"ref", "cref"}

HasRef(c) == \E i \in Idx(c) : IsRef(c.elems[i])
HasConst(c) == \E i \in Idx(c) : c.elems[i].k = "const"
Copyable(c) == \A i \in Idx(c) : ~(Owns(c.elems[i]) /\ c.elems[i].mo)
Movable(c) == \A i \in Idx(c) : ~(c.elems[i].k = "const" /\ c.elems[i].mo)
Assignable(c) == \A i \in Idx(c) : c.elems[i].k \in {"own", "ref", "empty"} /\ ~(c.elems[i].k = "ref" /\ c.elems[i].mo)
Deducible(c) == \A i \in Idx(c) : c.elems[i].k \in {"own", "empty"}
Defaultable(c) == Deducible(c) /\ \A i \in Idx(c) : ~c.elems[i].nd

Start(c) ==
    [ vars |-> [b \in Banks |-> [i \in Idx(c) |-> 0]],
      objs |-> [o \in Objs(c) |-> NONE] ]

Alive(s, o) == s.objs[o].alive
Elems(s, o) == s.objs[o].v

(* ----------------------------------------------------------- operations *)

(* what making a tuple from bank b puts in it                               *)
Made(c, s, b) ==
    [i \in Idx(c) |-> IF Owns(c.elems[i]) THEN s.vars[b][i]
                      ELSE IF IsRef(c.elems[i]) THEN b ELSE 0]

(* the value of element i of tuple t                                        *)
Value(c, s, t, i) ==
    IF Owns(c.elems[i]) THEN t[i]
    ELSE IF IsRef(c.elems[i]) THEN s.vars[t[i]][i]
    ELSE c.elems[i].id

Husk(c, t) == [i \in Idx(c) |-> IF Owns(c.elems[i]) THEN UNKNOWN ELSE t[i]]

(* assignment: values are replaced, references are written through          *)
Assigned(c, t, u) == [i \in Idx(c) |-> IF Owns(c.elems[i]) THEN u[i] ELSE t[i]]
Through(c, s, t, u) ==
    [b \in Banks |-> [i \in Idx(c) |->
        IF IsRef(c.elems[i]) /\ t[i] = b THEN s.vars[u[i]][i] ELSE s.vars[b][i]]]

Cats == {"lv", "clv", "rv", "crv"}

(* "take" is reading an element of a tuple that is given up for it: the      *)
(* element may be moved away.  A const element cannot be.                   *)
Enabled(c, s, op) ==
    LET n == op[1] IN
    CASE n = "var"    -> TRUE
      [] n = "make"   -> op[4] \in {"lv", "clv"} => Copyable(c)
      [] n = "deduce" -> Deducible(c) /\ (op[4] \in {"lv", "clv"} => Copyable(c))
      [] n = "default" -> Defaultable(c)
      [] n = "copy"   -> Alive(s, op[3]) /\ op[2] # op[3] /\ Copyable(c)
      [] n = "copyn"  -> Alive(s, op[3]) /\ op[2] # op[3] /\ Copyable(c)
      [] n = "move"   -> Alive(s, op[3]) /\ op[2] # op[3] /\ Movable(c)
      [] n = "assign" -> Alive(s, op[2]) /\ Alive(s, op[3]) /\ op[2] # op[3] /\ Assignable(c) /\ Copyable(c)
      [] n = "massign" -> Alive(s, op[2]) /\ Alive(s, op[3]) /\ op[2] # op[3] /\ Assignable(c)
      [] n = "swap"   -> Alive(s, op[2]) /\ Alive(s, op[3]) /\ op[2] # op[3] /\ Assignable(c) /\ ~HasRef(c)
      [] n = "drop"   -> Alive(s, op[2])
      [] n = "get"    -> Alive(s, op[2]) /\ op[3] \in Idx(c)
      [] n = "put"    -> Alive(s, op[2]) /\ op[3] \in Idx(c) /\ c.elems[op[3]].k \in {"own", "ref"}
      [] n = "take"   -> Alive(s, op[2]) /\ op[3] \in Idx(c) /\ c.elems[op[3]].k = "own"
      [] n = "all"    -> Alive(s, op[2])
      [] n = "vars"   -> TRUE
      [] OTHER -> FALSE

After(c, s, op, obs) ==
    LET n == op[1] IN
    CASE n = "var"    -> [s EXCEPT !.vars[op[2]][op[3]] = op[4]]
      [] n \in {"make", "deduce"} -> [s EXCEPT !.objs[op[2]] = Obj(Made(c, s, op[3]))]
      [] n = "default" -> [s EXCEPT !.objs[op[2]] = Obj([i \in Idx(c) |-> 0])]
      [] n \in {"copy", "copyn"} -> [s EXCEPT !.objs[op[2]] = s.objs[op[3]]]
      [] n = "move"   -> [s EXCEPT !.objs[op[2]] = s.objs[op[3]], !.objs[op[3]] = Obj(Husk(c, Elems(s, op[3])))]
      [] n \in {"assign", "massign"} ->
            [ vars |-> Through(c, s, Elems(s, op[2]), Elems(s, op[3])),
              objs |-> [s.objs EXCEPT ![op[2]] = Obj(Assigned(c, Elems(s, op[2]), Elems(s, op[3]))),
                                      ![op[3]] = IF n = "massign" THEN Obj(Husk(c, Elems(s, op[3]))) ELSE @] ]
      [] n = "swap"   -> [s EXCEPT !.objs[op[2]] = s.objs[op[3]], !.objs[op[3]] = s.objs[op[2]]]
      [] n = "drop"   -> [s EXCEPT !.objs[op[2]] = NONE]
      [] n = "put"    -> IF c.elems[op[3]].k = "own" THEN [s EXCEPT !.objs[op[2]].v[op[3]] = op[4]]
                         ELSE [s EXCEPT !.vars[Elems(s, op[2])[op[3]]][op[3]] = op[4]]
      [] n = "take"   -> [s EXCEPT !.objs[op[2]].v[op[3]] = UNKNOWN]
      [] OTHER -> s

(* --------------------------------------------------------- observations *)

Same(want, got) == want = UNKNOWN \/ want = got

(* the value category of get<i> of a tuple accessed as cat.  References      *)
(* taken out of a tuple that is an rvalue: not specified.                   *)
Category(e, cat) ==
    CASE e.k = "own"   -> cat
      [] e.k = "const" -> IF cat \in {"lv", "clv"} THEN "clv" ELSE "crv"
      [] e.k = "ref"   -> IF cat \in {"lv", "clv"} THEN cat ELSE "any"
      [] e.k = "cref"  -> IF cat \in {"lv", "clv"} THEN "clv" ELSE "any"
      [] e.k = "empty" -> "value"

(* where the element lives: in the tuple, in a variable of the user, nowhere *)
Where(c, t, i) ==
    IF Owns(c.elems[i]) THEN "tuple" ELSE IF IsRef(c.elems[i]) THEN <<"bank1", "bank2">>[t[i]] ELSE "none"

GetObs(c, s, op) ==
    LET t == Elems(s, op[2]) IN
    [v |-> Value(c, s, t, op[3]), cat |-> Category(c.elems[op[3]], op[4]), at |-> Where(c, t, op[3]), copies |-> 0]

Vals(c, s, o) == [i \in Idx(c) |-> Value(c, s, Elems(s, o), i)]

Want(c, s, op) ==
    LET n == op[1] IN
    CASE n = "get" -> GetObs(c, s, op)
      [] n = "take" -> [v |-> Value(c, s, Elems(s, op[2]), op[3]), copies |-> 0]
      [] n = "all" -> [v |-> Vals(c, s, op[2]), copies |-> 0]
      [] n = "vars" -> [v |-> s.vars, copies |-> 0]
      [] n = "make" -> IF op[4] = "rv" /\ ~HasConst(c) THEN [copies |-> 0] ELSE [done |-> 1]
      [] n = "deduce" -> IF op[4] = "rv" THEN [copies |-> 0] ELSE [done |-> 1]
      [] n \in {"move", "swap"} -> IF HasConst(c) THEN [done |-> 1] ELSE [copies |-> 0]
      [] n = "massign" -> IF HasRef(c) THEN [done |-> 1] ELSE [copies |-> 0]
      [] OTHER -> [done |-> 1]

Canon(c, s, op) == Want(c, s, op)

Ok(c, s, op, obs) ==
    LET n == op[1] w == Want(c, s, op) IN
    /\ obs.done = 1
    /\ "copies" \in DOMAIN w => obs.copies = w.copies
    /\ CASE n = "get" -> Same(w.v, obs.v) /\ w.cat \in {"any", obs.cat} /\ w.at = obs.at
         [] n = "take" -> Same(w.v, obs.v)
         [] n = "all" -> Len(obs.v) = Len(c.elems) /\ \A i \in Idx(c) : Same(w.v[i], obs.v[i])
         [] n = "vars" -> obs.v = w.v
         [] OTHER -> TRUE

(* ------------------------------------------------- generation of scripts *)

Ops(c, s) ==
    LET vals(i) == 0 .. c.elems[i].n - 1
        all == UNION {
          { <<"var", b, i, x>> : b \in 1 .. c.banks, i \in { j \in Idx(c) : c.elems[j].k # "empty" }, x \in 0 .. 2 },
          { <<"make", o, b, cat>> : o \in Objs(c), b \in 1 .. c.banks, cat \in {"lv", "clv", "rv"} },
          { <<"deduce", o, b, cat>> : o \in Objs(c), b \in 1 .. c.banks, cat \in {"lv", "clv", "rv"} },
          { <<"default", o>> : o \in Objs(c) },
          { <<n, o, p>> : n \in {"copy", "copyn", "move", "assign", "massign", "swap"}, o \in Objs(c), p \in Objs(c) },
          { <<"get", o, i, cat>> : o \in Objs(c), i \in Idx(c), cat \in Cats },
          { <<"put", o, i, x>> : o \in Objs(c), i \in Idx(c), x \in 0 .. 2 },
          { <<"take", o, i>> : o \in Objs(c), i \in Idx(c) },
          { <<"all", o>> : o \in Objs(c) } }
    IN  { op \in all : /\ Enabled(c, s, op)
                       /\ op[1] = "var" => op[4] \in vals(op[3]) /\ op[4] # s.vars[op[2]][op[3]]
                       /\ op[1] = "put" => op[4] \in vals(op[3]) }

(* what to look at after an operation                                       *)
Probe(c, s) ==
    LET alive == SelectSeq([o \in Objs(c) |-> o], LAMBDA o : Alive(s, o))
    IN  [k \in DOMAIN alive |-> <<"all", alive[k]>>] \o (IF HasRef(c) THEN <<<<"vars">>>> ELSE <<>>)
Quiet(op) == op[1] \in {"var", "all"}

(* ------------------------------------------------------------ properties *)
(* (of the specification; checked on the graphs the scripts come from)      *)

(* a tuple only changes when it is the subject of an operation              *)
Touched(op) == IF op[1] \in {"var", "get", "all", "vars"} THEN {}
               ELSE IF op[1] \in {"copy", "copyn", "assign"} THEN {op[2]}
               ELSE IF op[1] \in {"move", "massign", "swap"} THEN {op[2], op[3]} ELSE {op[2]}
Independent(c, s, t, op) == \A o \in Objs(c) \ Touched(op) : s.objs[o] = t.objs[o]

(* variables only change through the user, or through references            *)
ThroughRefs(c, s, t, op) ==
    \A b \in Banks, i \in Idx(c) :
        s.vars[b][i] # t.vars[b][i] =>
            \/ op[1] = "var"
            \/ c.elems[i].k = "ref" /\ op[1] \in {"put", "assign", "massign"}
=============================================================================

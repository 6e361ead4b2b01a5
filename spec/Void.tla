-------------------------------- MODULE Void --------------------------------
(***************************************************************************)
(* void as a value: regularized_void(f) returns a value of regular_void     *)
(* where f returns void, unregularized_void(f) the other way round, and     *)
(* std::optional<regular_void> behaves like any other optional.             *)
(*                                                                          *)
(* c.what = "adapter": c.adapt is a sequence of "reg" and "unreg" (applied  *)
(*   to f in this order), c.res the result of f ("void", "unit" (that is    *)
(*   regular_void), "num", "text", "opt"), c.args the number of arguments,  *)
(*   c.fn whether f is "mut" (counts its calls), "large" (the same, and is   *)
(*   large), "both" (the same, but has another call operator for const      *)
(*   objects, which does not count), "con" (has a const call    *)
(*   operator, and does not count), "empty"                                 *)
(*   Operations: <<"call", o, vs>>, <<"ccall", o, vs>> (as const), with     *)
(*   arguments of the values vs; <<"make", o>>, <<"copy", o, p>>,           *)
(*   <<"move", o, p>>.                                                      *)
(* c.what = "optional": the objects are optionals, operations see Want.     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

UNKNOWN == -1
Objs(c) == 1 .. c.objs
NONE == [alive |-> FALSE, n |-> 0]

(* ------------------------------------------------------------- adapters *)
RECURSIVE Adapted(_, _)
Adapted(res, as) ==
    IF as = <<>> THEN res
    ELSE Adapted(IF Head(as) = "reg" /\ res = "void" THEN "unit"
                 ELSE IF Head(as) = "unreg" /\ res = "unit" THEN "void" ELSE res, Tail(as))

RECURSIVE Mix(_)
Mix(vs) == IF vs = <<>> THEN 1 ELSE (Mix(SubSeq(vs, 1, Len(vs) - 1)) * 5 + vs[Len(vs)]) % 9973

(* ------------------------------------------------------------- component *)
Start(c) == [objs |-> [o \in Objs(c) |-> NONE]]
Counts(c) == c.fn \in {"mut", "large", "both"}
Alive(s, o) == s.objs[o].alive
Bump(n) == IF n = UNKNOWN THEN UNKNOWN ELSE n + 1

Both(s, op) == Alive(s, op[2]) /\ Alive(s, op[3])
Enabled(c, s, op) ==
    LET n == op[1] IN
    CASE n \in {"make", "value", "default", "nullopt", "order"} -> TRUE
      [] n \in {"copy", "move"} -> Alive(s, op[3]) /\ op[2] # op[3]
      [] n = "call" -> Alive(s, op[2])
      [] n = "ccall" -> Alive(s, op[2]) /\ c.fn \notin {"mut", "large"}
      [] n \in {"set", "reset", "bool", "deref", "eqv", "erase", "emplace", "null", "has", "access"} -> Alive(s, op[2]) /\ (n = "deref" => s.objs[op[2]].n = 1)
      [] n \in {"assign", "eq"} -> Both(s, op)

(* optionals: n is 1 if there is a value                                     *)
After(c, s, op, obs) ==
    LET n == op[1]
        put(k) == [s EXCEPT !.objs[op[2]] = [alive |-> TRUE, n |-> k]]
    IN
    CASE n \in {"make", "default", "nullopt", "reset", "erase", "null"} -> put(0)
      [] n \in {"value", "set", "emplace"} -> put(1)
      [] n \in {"copy", "assign"} -> put(s.objs[op[3]].n)
      [] n = "move" -> [s EXCEPT !.objs[op[2]] = s.objs[op[3]], !.objs[op[3]].n = UNKNOWN]
      [] n = "call" /\ Counts(c) -> put(Bump(s.objs[op[2]].n))
      [] OTHER -> s

Bit(b) == IF b THEN 1 ELSE 0
Want(c, s, op) ==
    LET n == op[1]
        k(o) == s.objs[o].n
    IN
    CASE n \in {"call", "ccall"} ->
            [ seen |-> op[3], type |-> Adapted(c.res, c.adapt), calls |-> 1,
              ret |-> IF c.res \in {"void", "unit"} THEN 0 ELSE Mix(op[3]),
              n |-> IF n = "call" /\ Counts(c) THEN Bump(k(op[2])) ELSE IF Counts(c) THEN k(op[2]) ELSE 0 ]
      [] n \in {"bool", "has", "access"} -> [r |-> <<k(op[2])>>]      \* access: 0 if it throws bad_optional_access
      [] n = "eqv" -> [r |-> <<k(op[2]), 1 - k(op[2]), k(op[2]), 1 - k(op[2])>>]         \* o == v, o != v, v == o, v != o
      [] n = "eq" -> [r |-> <<Bit(k(op[2]) = k(op[3])), Bit(k(op[2]) # k(op[3]))>>]
      [] n = "deref" -> [r |-> <<1>>]
      [] n = "order" -> [r |-> <<1, 0, 0, 1, 0, 1>>]                   \* two values of regular_void: == != < <= > >=
      [] OTHER -> [r |-> <<>>]
Canon(c, s, op) == Want(c, s, op)

Ok(c, s, op, obs) ==
    LET w == Want(c, s, op) IN
    /\ obs.done = 1
    /\ IF op[1] \in {"call", "ccall"}
       THEN /\ obs.seen = w.seen /\ obs.type = w.type /\ obs.ret = w.ret /\ obs.calls = 1
            /\ w.n = UNKNOWN \/ obs.n = w.n
       ELSE w.r # <<>> => obs.r = w.r

(* ------------------------------------------------- generation of scripts *)
ArgSeqs(c) == [1 .. c.args -> 0 .. 1]
Ops(c, s) ==
    LET O == Objs(c)
        all == IF c.what = "adapter"
               THEN { <<"make", o>> : o \in O } \cup { <<n, o, p>> : n \in {"copy", "move"}, o \in O, p \in O }
                    \cup { <<n, o, vs>> : n \in {"call", "ccall"}, o \in O, vs \in ArgSeqs(c) }
               ELSE { <<n, o>> : n \in {"default", "nullopt", "value", "set", "reset", "erase", "null", "emplace", "bool", "has", "access", "deref", "eqv"}, o \in O }
                    \cup { <<n, o, p>> : n \in {"copy", "assign", "eq"}, o \in O, p \in O } \cup {<<"order">>}
    IN  { op \in all : Enabled(c, s, op) /\ (op[1] = "call" => s.objs[op[2]].n < c.maxn) }
Probe(c, s) ==
    LET alive == SelectSeq([o \in Objs(c) |-> o], LAMBDA o : Alive(s, o))
    IN  [i \in DOMAIN alive |-> IF c.what = "optional" THEN <<"bool", alive[i]>> ELSE <<"call", alive[i], [j \in 1 .. c.args |-> 1]>>]
Quiet(op) == FALSE

(* adapting back and forth gives the original result                         *)
RoundTrip(c) == c.what = "adapter" =>
    /\ Adapted("void", <<"reg", "unreg">>) = "void"
    /\ \A r \in {"num", "text", "opt"} : Adapted(r, c.adapt) = r
Separate(c, s, t, op) == \A o \in Objs(c) : o \notin { op[i] : i \in 2 .. Len(op) } => s.objs[o] = t.objs[o]
=============================================================================

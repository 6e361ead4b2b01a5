------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* How much room things take.  A case names a construct and what it is made *)
(* of; the observation gives its size, and the sizes and alignments of the  *)
(* parts, all as measured in a program that uses the real headers.          *)
(*                                                                          *)
(* Parts are named by kind: "e" is an empty class, other kinds have a size. *)
(*   tuple      c.parts: element kinds                                      *)
(*   overload   c.parts: kinds of the callables                             *)
(*   recursive, regular, unregular   c.parts: one callable                  *)
(*   front, back    c.parts: the callable, then the elements of the tuple   *)
(*   uncapture      c.parts: the callable, then the values                  *)
(*   lazy       c.tree: [f, r, deps]: kind of the function, of its result   *)
(*              ("v": void), and the dependencies: [k |-> "val", v],        *)
(*              [k |-> "src", f, r], [k |-> "lazy", f, r, deps]             *)
(* The sizes of a callable, a value and an optional of kind x are           *)
(* obs.f[x], obs.v[x], obs.o[x], as <<size, alignment>>.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

RoundUp(x, a) == ((x + a - 1) \div a) * a
Max(a, b) == IF a > b THEN a ELSE b

RECURSIVE MaxAlign(_), End(_, _), Sum(_, _)
MaxAlign(ps) == IF ps = <<>> THEN 1 ELSE Max(Head(ps)[2], MaxAlign(Tail(ps)))
End(ps, off) == IF ps = <<>> THEN off ELSE End(Tail(ps), RoundUp(off, Head(ps)[2]) + Head(ps)[1])
Sum(ps, a) == IF ps = <<>> THEN 0 ELSE RoundUp(Head(ps)[1], a) + Sum(Tail(ps), a)

(* a struct with members of these sizes, in this order                      *)
Struct(ps) == RoundUp(End(ps, 0), MaxAlign(ps))
(* members in any grouping and order                                        *)
Loose(ps) == Sum(ps, MaxAlign(ps))

Solid(ks) == SelectSeq(ks, LAMBDA k : k # "e")
Sizes(table, ks) == LET s == Solid(ks) IN [i \in DOMAIN s |-> table[s[i]]]
Atleast1(x) == Max(x, 1)

(* ------------------------------------------------------------------ lazy *)
RECURSIVE Parts(_, _), DepParts(_, _)
FnParts(obs, f) == IF f = "e" THEN <<>> ELSE <<obs.f[f]>>
Parts(obs, t) == FnParts(obs, t.f) \o <<obs.o[t.r]>> \o DepParts(obs, t.deps)
DepParts(obs, ds) ==
    IF ds = <<>> THEN <<>>
    ELSE LET d == Head(ds) IN
         (CASE d.k = "val"  -> IF d.v = "e" THEN <<>> ELSE <<obs.v[d.v]>>
            [] d.k = "src"  -> FnParts(obs, d.f) \o <<obs.o[d.r]>>
            [] d.k = "lazy" -> Parts(obs, d)) \o DepParts(obs, Tail(ds))

(* ------------------------------------------------------------- component *)
Start(c) == 0
Enabled(c, s, op) == TRUE
After(c, s, op, obs) == 0

Bound(c, obs) ==
    CASE c.form = "lazy"  -> Loose(Parts(obs, c.tree))
      [] c.form = "tuple" -> Struct(Sizes(obs.v, c.parts))
      [] c.form \in {"overload", "recursive", "regular", "unregular"} -> Struct(Sizes(obs.f, c.parts))
      [] c.form \in {"front", "back", "uncapture"} ->
            Loose(Sizes(obs.f, <<Head(c.parts)>>) \o Sizes(obs.v, Tail(c.parts)))

NoState(c) == c.form # "lazy" /\ \A i \in DOMAIN c.parts : c.parts[i] = "e"

Want(c, s, op) == [stateless |-> NoState(c)]

(* no larger than its parts; nothing of an empty class is stored at all      *)
Ok(c, s, op, obs) ==
    /\ obs.size <= Atleast1(Bound(c, obs))
    /\ NoState(c) => obs.empty = 1
    /\ c.form # "lazy" => obs.size = obs.bare

(* ----------------------------------------------------------------- cases *)
Kinds == {"e", "c", "i", "d", "w", "s"}
SeqsUpTo(S, lo, hi) == UNION { [1 .. n -> S] : n \in lo .. hi }

Simple(hi) ==
    [form : {"tuple"}, parts : SeqsUpTo(Kinds \cup {"r"}, 0, hi)]
    \cup [form : {"overload"}, parts : SeqsUpTo(Kinds, 1, hi)]
    \cup [form : {"recursive", "regular", "unregular"}, parts : SeqsUpTo(Kinds, 1, 1)]
    \cup [form : {"front", "back", "uncapture"}, parts : SeqsUpTo(Kinds, 2, hi)]

Res == {"v", "c", "i", "d", "s", "b", "t"}
Fns == {"e", "i", "d", "s"}
Leaf == [k : {"val"}, v : {"e", "c", "i", "d", "w", "s", "t"}] \cup [k : {"src"}, f : Fns, r : Res \ {"v"}]
Lazy0 == [k : {"lazy"}, f : Fns, r : Res, deps : SeqsUpTo(Leaf, 0, 1)]
Small0 == [k : {"lazy"}, f : {"e", "i"}, r : {"c", "i"}, deps : SeqsUpTo([k : {"val"}, v : {"e", "d"}] \cup [k : {"src"}, f : {"e"}, r : {"i"}], 0, 1)]
Lazy1 == [k : {"lazy"}, f : {"e", "i"}, r : {"v", "i"}, deps : SeqsUpTo(Small0, 1, 1)]
Lazy2 == [k : {"lazy"}, f : {"e"}, r : {"i"}, deps : SeqsUpTo(Leaf, 2, 2)]
Trees == [form : {"lazy"}, tree : Lazy0 \cup Lazy1 \cup Lazy2]
=============================================================================

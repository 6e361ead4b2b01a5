------------------------------ MODULE LazyFun ------------------------------
(* The functions the nodes of the model (and of the harness) compute, and     *)
(* the graphs that are model checked.                                         *)
EXTENDS Integers, Sequences

RECURSIVE SumSeq(_), MaxSeq(_), PosSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
MaxSeq(s) == IF s = <<>> THEN 0
             ELSE LET m == MaxSeq(Tail(s)) IN IF Head(s) > m THEN Head(s) ELSE m
PosSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + 3 * PosSeq(Tail(s))

(* a regular_void argument (the result of a void dependency) counts as 0 *)
Norm(args) == [i \in DOMAIN args |-> IF args[i] < 0 THEN 0 ELSE args[i]]

Apply(f, m, args) ==
    LET a == Norm(args)
    IN CASE f = "sum"   -> SumSeq(a) % m
         [] f = "max"   -> MaxSeq(a) % m
         [] f = "pos"   -> PosSeq(a) % m
         [] f = "first" -> IF a = <<>> THEN 0 ELSE a[1] % m
         [] f = "const" -> 0
         [] f = "void"  -> -2

Src(v) == [k |-> "src", v |-> v]
Val(v) == [k |-> "val", v |-> v]
Dep(n) == [k |-> "lazy", n |-> n]
N(f, m, deps) == [f |-> f, m |-> m, deps |-> deps]

G_none    == << N("const", 2, <<>>) >>
G_one     == << N("sum", 3, <<Src(1)>>) >>
G_two     == << N("pos", 9, <<Src(1), Src(2)>>) >>
G_val     == << N("pos", 9, <<Src(1), Val(2)>>) >>
G_chain   == << N("sum", 2, <<Src(1)>>), N("sum", 3, <<Dep(1), Src(2)>>) >>
G_chain3  == << N("sum", 2, <<Src(1)>>), N("const", 2, <<Dep(1)>>), N("pos", 9, <<Dep(2), Dep(1)>>) >>
G_diamond == << N("sum", 2, <<Src(1)>>), N("pos", 9, <<Dep(1), Dep(1)>>) >>
G_void    == << N("max", 2, <<Src(1), Src(2)>>), N("void", 1, <<Dep(1), Src(1)>>) >>
=============================================================================

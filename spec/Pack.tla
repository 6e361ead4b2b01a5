-------------------------------- MODULE Pack --------------------------------
(***************************************************************************)
(* enumerate_pack(f, xs...) calls f with one item per argument, that gives  *)
(* the argument and its position; enumerate_n<n>(f) with n items that give  *)
(* their position as index and as value.                                    *)
(*                                                                          *)
(* c.form  "pack" or "n"                                                    *)
(* c.args  ("pack") [cat, v]: value category and value of each argument     *)
(* c.n     ("n") number of items                                            *)
(* c.fcat  how f is passed; f counts its calls if it is not const           *)
(* c.ret   0: f returns a number, 1: a value that can only be moved, -1:    *)
(*         nothing                                                          *)
(* The operation <<"run", k>> is the k-th call in the program, always with  *)
(* the same f.                                                              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Count(c) == IF c.form = "pack" THEN Len(c.args) ELSE c.n
Positions(c) == [i \in 1 .. Count(c) |-> i - 1]

RECURSIVE Mix(_)
Mix(vs) == IF vs = <<>> THEN 1 ELSE (Mix(SubSeq(vs, 1, Len(vs) - 1)) * 5 + vs[Len(vs)]) % 9973
Values(c) == IF c.form = "pack" THEN [i \in 1 .. Count(c) |-> c.args[i].v] ELSE Positions(c)

Start(c) == [n |-> 0]
Enabled(c, s, op) == op[1] = "run"
Want(c, s, op) ==
    [ index |-> Positions(c),
      seen |-> Values(c),
      cats |-> [i \in 1 .. Count(c) |-> IF c.form = "pack" THEN c.args[i].cat ELSE "any"],
      same |-> [i \in 1 .. Count(c) |-> 1],
      calls |-> 1,
      n |-> IF c.fcat = "clv" THEN 0 ELSE s.n + 1,
      ret |-> IF c.ret = -1 THEN 0 ELSE Mix(Values(c)),
      copies |-> 0 ]

Ok(c, s, op, obs) ==
    LET w == Want(c, s, op) IN
    /\ obs.index = w.index
    /\ obs.seen = w.seen
    /\ \A i \in DOMAIN w.cats : w.cats[i] \in {"any", obs.cats[i]}
    /\ c.form = "pack" => obs.same = w.same
    /\ obs.calls = 1
    /\ obs.n = w.n
    /\ obs.ret = w.ret
    /\ obs.copies = 0
    /\ obs.done = 1
After(c, s, op, obs) == [n |-> IF c.fcat = "clv" THEN 0 ELSE s.n + 1]

(* ----------------------------------------------------------------- cases *)
Cats == {"lv", "clv", "rv", "crv"}
AllPacks == [form : {"pack"}, cats : UNION { [1 .. n -> Cats] : n \in 0 .. 4 }, n : {0}]
            \cup [form : {"n"}, cats : {<<>>}, n : 0 .. 12]
=============================================================================

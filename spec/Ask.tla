-------------------------------- MODULE Ask ---------------------------------
(***************************************************************************)
(* Whether a call is possible can be asked (std::is_invocable, requires),   *)
(* and so can what a type is (the concepts).  The answer is "no", not an    *)
(* error, exactly if the function inside cannot be called like that.        *)
(*                                                                          *)
(* c.form   what is called: "front" (tuple >> f), "back" (tuple << f),      *)
(*          "bback" (bind_back), "uncap" (uncaptured(...) >> f), "apply",   *)
(*          "recursive", "get", "type" (is this a tuple, is it empty...)    *)
(* c.holder "ct", "tup": tuple in the forms "front", "back", "apply"        *)
(* c.obj    "lv", "clv", "rv", "crv": the object that is called; of apply:  *)
(*          the tuple                                                       *)
(* c.fn     [ps, q]: the function: its parameters <<type, how>>, how = "v"  *)
(*          (by value), "c" (const &), "l" (&), "r" (&&), and the qualifier *)
(*          of its call operator ("", "c" const, "l" &, "r" &&, "cl" const  *)
(*          &)                                                              *)
(* c.own    types of the bound elements or values                           *)
(* c.args   arguments <<type, how>>, how = "l" (lvalue), "c" (const         *)
(*          lvalue), "r" (rvalue)                                           *)
(* Form "get": c.own elements, index c.i (from 0).                          *)
(* Form "type": c.type, see Facts.                                          *)
(* Form "shape": the elements c.own = <<type, how>> of a compressed tuple   *)
(* type, how = "v", "k" (const), "l" (reference), "c" (const reference), as *)
(* tuple_size and tuple_element tell them for the type with qualifiers q,   *)
(* and whether structured bindings name the elements.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

(* can parameter p take argument a?                                         *)
Takes(p, a) ==
    CASE p[1] = "any" -> TRUE
      [] p[1] = a[1] -> (CASE p[2] \in {"v", "c"} -> TRUE [] p[2] = "l" -> a[2] = "l" [] p[2] = "r" -> a[2] = "r")
      [] {p[1], a[1]} = {"int", "dbl"} -> p[2] # "l"
      [] OTHER -> FALSE

(* can a call operator with qualifier q be called on an object seen as v?    *)
On(q, v) ==
    CASE q = "" -> v \in {"lv", "rv"} [] q = "c" -> TRUE [] q = "l" -> v = "lv" [] q = "r" -> v = "rv" [] q = "cl" -> TRUE

Callable(fn, v, as) == On(fn.q, v) /\ Len(fn.ps) = Len(as) /\ \A i \in DOMAIN as : Takes(fn.ps[i], as[i])

How(cat) == CASE cat = "lv" -> "l" [] cat = "clv" -> "c" [] cat = "rv" -> "r" [] cat = "crv" -> "c"
As(ts, how) == [i \in DOMAIN ts |-> <<ts[i], how>>]

(* as what the object of a recursive function can be seen: the const lvalue  *)
(* operator is there for every object                                        *)
Views(obj) == {obj, "clv"} \cup (IF obj = "rv" THEN {"crv"} ELSE {})

IsConst(c) == c.obj \in {"clv", "crv"}

(* the arguments of a call are stored next to the elements for that call:    *)
(* the function gets lvalues                                                 *)
Stored(as) == [i \in DOMAIN as |-> <<as[i][1], IF as[i][2] = "r" THEN "l" ELSE as[i][2]>>]

Can(c) ==
    CASE c.form = "front" -> Callable(c.fn, "lv", As(c.own, "l") \o Stored(c.args))
      [] c.form = "back" -> Callable(c.fn, "lv", Stored(c.args) \o As(c.own, "l"))
      [] c.form = "bback" -> Callable(c.fn, "lv", c.args \o As(c.own, "l"))
      [] c.form = "uncap" -> LET k == IsConst(c) IN
                             Callable(c.fn, IF k THEN "clv" ELSE "lv", c.args \o As(c.own, IF k THEN "c" ELSE "l"))
      [] c.form = "apply" -> Callable(c.fn, "lv", As(c.own, How(c.obj)))
      [] c.form = "recursive" -> \E v \in Views(c.obj) : Callable(c.fn, v, <<<<"self", How(v)>>>> \o c.args)
      [] c.form = "get" -> c.i < Len(c.own)

(* what there is to say of a type: kind, qualifiers do not matter            *)
Kinds == {"int", "str", "fun", "cap", "empty", "ct0", "ct1", "ct2", "cte", "st0", "st2", "pair", "arr"}
Facts(k) ==
    [ tuple |-> k \in {"ct0", "ct1", "ct2", "cte", "st0", "st2", "pair", "arr"},
      compressed |-> k \in {"ct0", "ct1", "ct2", "cte"},
      empty |-> k \in {"fun", "empty", "ct0", "cte", "st0"} ]

Start(c) == 0
Enabled(c, s, op) == TRUE
After(c, s, op, obs) == 0
Truth(b) == IF b THEN 1 ELSE 0
Want(c, s, op) ==
    IF c.form = "type"
    THEN LET f == Facts(c.type) IN
         [tuple |-> Truth(f.tuple), compressed |-> Truth(f.compressed), empty |-> Truth(f.empty), binds |-> Truth(f.tuple)]
    ELSE IF c.form = "shape"
    THEN [size |-> Len(c.own), elems |-> [i \in DOMAIN c.own |-> c.own[i][1] \o c.own[i][2]], named |-> 1]
    ELSE [can |-> Truth(Can(c)), ran |-> Truth(Can(c))]
Ok(c, s, op, obs) == obs = Want(c, s, op)

(* --------------------------------------------------------------- cases *)
PTypes == { <<"int", "v">>, <<"int", "l">>, <<"int", "r">>, <<"str", "c">>, <<"any", "v">> }
Args == { <<"int", "l">>, <<"int", "r">>, <<"str", "c">> }
Upto(n, S) == UNION { [1 .. k -> S] : k \in 0 .. n }
Bound ==
    { [form |-> f, holder |-> "ct", obj |-> o, fn |-> [ps |-> ps, q |-> q], own |-> own, args |-> as] :
        f \in {"front", "back", "bback", "uncap"}, o \in {"lv", "rv"}, ps \in Upto(2, PTypes), q \in {"", "c"},
        own \in Upto(1, {"int", "str"}), as \in Upto(1, Args) }
Const ==
    { [form |-> f, holder |-> "ct", obj |-> "clv", fn |-> [ps |-> ps, q |-> q], own |-> own, args |-> as] :
        ps \in Upto(2, PTypes), q \in {"", "c"}, own \in [1 .. 1 -> {"int", "str"}], as \in Upto(1, Args),
        f \in {"uncap"} }
Applied ==
    { [form |-> "apply", holder |-> h, obj |-> o, fn |-> [ps |-> ps, q |-> "c"], own |-> own, args |-> <<>>] :
        h \in {"ct", "tup"}, o \in {"lv", "clv", "rv"}, ps \in Upto(2, PTypes \cup {<<"str", "r">>}), own \in Upto(2, {"int", "str"}) }
Rec ==
    { [form |-> "recursive", holder |-> "ct", obj |-> o, fn |-> [ps |-> <<<<"any", "v">>>> \o ps, q |-> q], own |-> <<>>, args |-> as] :
        o \in {"lv", "clv", "rv", "crv"}, ps \in Upto(2, PTypes), q \in {"", "c", "l", "r", "cl"}, as \in Upto(1, Args) }
Getting ==
    { [form |-> "get", holder |-> "ct", obj |-> o, fn |-> [ps |-> <<>>, q |-> "c"], own |-> own, args |-> <<>>, i |-> i] :
        o \in {"lv", "clv", "rv", "crv"}, own \in Upto(3, {"int", "empty"}), i \in 0 .. 4 }
Typing == { [form |-> "type", type |-> k, q |-> q] : k \in Kinds, q \in {"lv", "clv", "rv", "crv", "v", "c"} }
Shapes == { [form |-> "shape", own |-> own] : own \in Upto(3, {"int", "str", "empty"} \X {"v"} \cup {"int", "str"} \X {"k", "l", "c"}) }
AllAsked == Shapes \cup Bound \cup Const \cup Applied \cup Rec \cup Getting \cup Typing
=============================================================================

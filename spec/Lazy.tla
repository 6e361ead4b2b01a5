-------------------------------- MODULE Lazy --------------------------------
(***************************************************************************)
(* What a user of pigro::lazy may rely on, as a small-step state machine.   *)
(*                                                                          *)
(* A program is a sequence of NODES (Graph).  Node n is a call              *)
(*                                                                          *)
(*     lazy(f_n, dep_1, ..., dep_k)                                         *)
(*                                                                          *)
(* in which every dependency is one of                                      *)
(*    [k |-> "src",  v |-> x]   a plain function that reads variable x      *)
(*    [k |-> "val",  v |-> x]   the value variable x has at that moment     *)
(*    [k |-> "lazy", n |-> m]   an object made by node m, taken by value    *)
(* (variable 0 is always 0: what types with a single value are read as)      *)
(*                                                                          *)
(* An OBJECT is what such a call returns: a tree of functions, each with    *)
(* state of its own.  PATHS address its parts: <<>> is the object itself,   *)
(* <<i>> its i-th dependency, and so on.                                    *)
(*                                                                          *)
(* The specification does not say HOW it is decided whether a function has  *)
(* to run: it says when it MUST (the values its dependencies have now are   *)
(* not the ones it was last given), when it MAY (also after a call that was *)
(* cut short by an exception) and when it must not (otherwise).  The        *)
(* algorithm of lazy.h is in LazyImpl.tla, which is checked to refine this. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
    Graph,      \* the nodes
    Vars,       \* variables: 1..Len
    Vals,       \* their values (naturals)
    MaxObjs,    \* how many objects there can be
    MaxNest,    \* how deep calls can be nested (0: not at all)
    StMax,      \* own-state counters saturate here (0: not tracked)
    Checks      \* which groups of obligations are enforced (all of them
                \* in model checking; the trace specification selects)

NONE == -1
VOID == -2

Nodes == DOMAIN Graph
Deps(n) == Graph[n].deps
Arity(n) == Len(Deps(n))
Indices(n) == 1 .. Arity(n)

RECURSIVE PathsOf(_)
PathsOf(n) ==
    {<<>>} \cup UNION { IF Deps(n)[i].k = "lazy"
                        THEN { <<i>> \o p : p \in PathsOf(Deps(n)[i].n) }
                        ELSE { <<i>> } : i \in Indices(n) }

RECURSIVE ItemOf(_, _)
ItemOf(n, p) ==
    IF p = <<>> THEN [k |-> "lazy", n |-> n]
    ELSE LET d == Deps(n)[Head(p)]
         IN  IF d.k = "lazy" THEN ItemOf(d.n, Tail(p)) ELSE d

Paths == [n \in Nodes |-> PathsOf(n)]
ItemAt == [n \in Nodes |-> [p \in Paths[n] |-> ItemOf(n, p)]]

VARIABLES
    env,        \* Vars -> Vals
    objs,       \* the objects: sequence of [n, live, s], s: path -> state
    ctl,        \* "idle", "run" (in a call) or "exc" (an exception is out)
    cur,        \* the object being called (0: none)
    stack,      \* frames [p, obs, ph]: path, values observed, phase
    credit,     \* path -> comparisons of its values still due in this call
    polled,     \* ghost: path -> value read by the source in this call
    evals,      \* ghost: path -> evaluations in this call
    outer       \* calls that wait for this one: a function of theirs made it

vars == <<env, objs, ctl, cur, stack, credit, polled, evals, outer>>

(* The state of one part of an object.                                      *)
(*   cache  value of the last evaluation (NONE: never evaluated); for a     *)
(*          source the last value read; for a value, the value              *)
(*   used   the values the function was given in that evaluation            *)
(*   taint  a call was cut short in this function since then                *)
(*   st     how often the function was invoked (state of its own)           *)
Fresh == [cache |-> NONE, used |-> <<>>, taint |-> FALSE, st |-> 0]
Bump(st) == IF st < StMax THEN st + 1 ELSE st

On(c) == c \in Checks
Now(v) == IF v = 0 THEN 0 ELSE env[v]

TypeOK ==
    /\ env \in [Vars -> Vals]
    /\ ctl \in {"idle", "run", "exc"}
    /\ cur \in 0 .. Len(objs)
    /\ Len(objs) <= MaxObjs
    /\ Len(outer) <= MaxNest
    /\ ctl = "idle" => outer = <<>>

Init ==
    /\ env \in [Vars -> Vals]
    /\ objs = <<>>
    /\ ctl = "idle"
    /\ cur = 0
    /\ stack = <<>>
    /\ credit = <<>>
    /\ polled = <<>>
    /\ evals = <<>>
    /\ outer = <<>>

Top == stack[Len(stack)]
State(p) == objs[cur].s[p]
Node(p) == ItemAt[objs[cur].n][p].n
TopNode == Node(Top.p)

-----------------------------------------------------------------------------
(* The world outside: may happen at any moment, also in the middle of a call *)

SetVar(v, x) ==
    /\ env' = [env EXCEPT ![v] = x]
    /\ UNCHANGED <<objs, ctl, cur, stack, credit, polled, evals, outer>>

-----------------------------------------------------------------------------
(* Objects come and go, also while another one is being called.  None of     *)
(* this runs a function: no source is read, nothing is evaluated, nothing is *)
(* compared.                                                                 *)

Busy == (IF cur = 0 THEN {} ELSE {cur}) \cup { outer[j].cur : j \in DOMAIN outer }
Free(o) == /\ ctl # "exc"
           /\ o \in DOMAIN objs
           /\ objs[o].live
           /\ o \notin Busy

LazyIndices(n) == { i \in Indices(n) : Deps(n)[i].k = "lazy" }

(* ds[i] is the object that is passed as i-th dependency (for lazy ones)     *)
Make(n, ds) ==
    /\ ctl # "exc"
    /\ Len(objs) < MaxObjs
    /\ \A i \in LazyIndices(n) :
          /\ Free(ds[i])
          /\ objs[ds[i]].n = Deps(n)[i].n
    /\ objs' = Append(objs,
        [n |-> n, live |-> TRUE,
         s |-> [p \in Paths[n] |->
                  IF p = <<>> THEN Fresh
                  ELSE LET d == Deps(n)[Head(p)]
                       IN CASE d.k = "src" -> Fresh
                            [] d.k = "val" -> [Fresh EXCEPT !.cache = Now(d.v)]
                            [] d.k = "lazy" -> objs[ds[Head(p)]].s[Tail(p)]]])
    /\ UNCHANGED <<env, ctl, cur, stack, credit, polled, evals, outer>>

Copy(o) ==
    /\ Free(o)
    /\ Len(objs) < MaxObjs
    /\ objs' = Append(objs, objs[o])
    /\ UNCHANGED <<env, ctl, cur, stack, credit, polled, evals, outer>>

Drop(o) ==
    /\ Free(o)
    /\ objs' = [objs EXCEPT ![o].live = FALSE]
    /\ UNCHANGED <<env, ctl, cur, stack, credit, polled, evals, outer>>

(* The moved-to object continues where the moved-from one was.               *)
Move(o) ==
    /\ Free(o)
    /\ Len(objs) < MaxObjs
    /\ objs' = Append([objs EXCEPT ![o].live = FALSE], objs[o])
    /\ UNCHANGED <<env, ctl, cur, stack, credit, polled, evals, outer>>

-----------------------------------------------------------------------------
(* A call.                                                                   *)

Frame(p, n) == [p |-> p, obs |-> [i \in Indices(n) |-> NONE], ph |-> "poll"]

(* A function may call other objects: the call it is part of waits.          *)
Begin(o) ==
    /\ Free(o)
    /\ outer' = IF ctl = "run"
                THEN Append(outer, [cur |-> cur, stack |-> stack, credit |-> credit, polled |-> polled, evals |-> evals])
                ELSE outer
    /\ Len(outer') <= MaxNest
    /\ ctl' = "run"
    /\ cur' = o
    /\ stack' = <<Frame(<<>>, objs[o].n)>>
    /\ credit' = [p \in Paths[objs[o].n] |-> 0]
    /\ polled' = [p \in Paths[objs[o].n] |-> NONE]
    /\ evals' = [p \in Paths[objs[o].n] |-> 0]
    /\ UNCHANGED <<env, objs>>

(* The call is over: back to the one that waits, or to the user.             *)
Leave ==
    IF outer = <<>>
    THEN /\ ctl' = "idle"
         /\ cur' = 0
         /\ stack' = <<>>
         /\ credit' = <<>>
         /\ polled' = <<>>
         /\ evals' = <<>>
         /\ UNCHANGED outer
    ELSE LET c == outer[Len(outer)] IN
         /\ ctl' = "run"
         /\ cur' = c.cur
         /\ stack' = c.stack
         /\ credit' = c.credit
         /\ polled' = c.polled
         /\ evals' = c.evals
         /\ outer' = SubSeq(outer, 1, Len(outer) - 1)

Observe(i, x) == stack' = [stack EXCEPT ![Len(stack)].obs[i] = x]

Unpolled(i, k) ==
    /\ ctl = "run"
    /\ Top.ph = "poll"
    /\ i \in Indices(TopNode)
    /\ Top.obs[i] = NONE
    /\ Deps(TopNode)[i].k = k

(* Dependencies are looked at one by one, in any order.                      *)
UseVal(i) ==
    /\ Unpolled(i, "val")
    /\ Observe(i, State(Append(Top.p, i)).cache)
    /\ UNCHANGED <<env, objs, ctl, cur, credit, polled, evals, outer>>

Poll(i) ==
    /\ Unpolled(i, "src")
    /\ LET q == Append(Top.p, i)
           x == Now(Deps(TopNode)[i].v)
       IN  /\ Observe(i, x)
           /\ credit' = [credit EXCEPT ![q] = IF State(q).cache = NONE THEN 0 ELSE 1]
           /\ polled' = [polled EXCEPT ![q] = x]
           /\ objs' = [objs EXCEPT ![cur].s[q].cache = x, ![cur].s[q].st = Bump(@)]
    /\ UNCHANGED <<env, ctl, cur, evals, outer>>

Push(i) ==
    /\ Unpolled(i, "lazy")
    /\ stack' = Append(stack, Frame(Append(Top.p, i), Deps(TopNode)[i].n))
    /\ UNCHANGED <<env, objs, ctl, cur, credit, polled, evals, outer>>

AllObserved == /\ ctl = "run"
               /\ Top.ph = "poll"
               /\ \A i \in Indices(TopNode) : Top.obs[i] # NONE

MustEval == State(Top.p).cache = NONE \/ State(Top.p).used # Top.obs
MayEval == MustEval \/ State(Top.p).taint

EvalGuard(args) ==
    /\ AllObserved
    /\ On("MAY") => MayEval
    /\ On("ARGS") => args = Top.obs

(* The function runs: given args, it returns r.                              *)
Eval(args, r) ==
    /\ EvalGuard(args)
    /\ LET p == Top.p
       IN  /\ credit' = [credit EXCEPT ![p] = IF State(p).cache = NONE THEN 0 ELSE 1]
           /\ evals' = [evals EXCEPT ![p] = @ + 1]
           /\ objs' = [objs EXCEPT ![cur].s[p] =
                 [cache |-> r, used |-> Top.obs, taint |-> FALSE, st |-> Bump(State(p).st)]]
           /\ stack' = [stack EXCEPT ![Len(stack)].ph = "done"]
    /\ UNCHANGED <<env, ctl, cur, polled, outer>>

(* The function does not run: the value from before is still good.           *)
Skip ==
    /\ AllObserved
    /\ State(Top.p).cache # NONE
    /\ On("MUST") => ~MustEval
    /\ objs' = [objs EXCEPT ![cur].s[Top.p].taint = FALSE]
    /\ stack' = [stack EXCEPT ![Len(stack)].ph = "done"]
    /\ UNCHANGED <<env, ctl, cur, credit, polled, evals, outer>>

(* Two values of the part at p are compared: only right after it was         *)
(* evaluated again, and only once.                                           *)
Compare(p) ==
    /\ ctl = "run"
    /\ On("CMP") => credit[p] > 0
    /\ credit' = [credit EXCEPT ![p] = IF @ > 0 THEN @ - 1 ELSE @]
    /\ UNCHANGED <<env, objs, ctl, cur, stack, polled, evals, outer>>

Return ==
    /\ ctl = "run"
    /\ Top.ph = "done"
    /\ Len(stack) > 1
    /\ LET up == stack[Len(stack) - 1]
           i  == Top.p[Len(Top.p)]
       IN  stack' = Append(SubSeq(stack, 1, Len(stack) - 2),
                           [up EXCEPT !.obs[i] = State(Top.p).cache])
    /\ UNCHANGED <<env, objs, ctl, cur, credit, polled, evals, outer>>

(* The call returns x to the user.                                           *)
End(x) ==
    /\ ctl = "run"
    /\ Top.ph = "done"
    /\ Len(stack) = 1
    /\ On("RES") => x = State(<<>>).cache
    /\ Leave
    /\ UNCHANGED <<env, objs>>

-----------------------------------------------------------------------------
(* Exceptions: thrown by a source, by a function, or by anything that is     *)
(* done with a value.  The call is cut short and the user gets the exception.*)

Frames == { stack[j].p : j \in DOMAIN stack }
Tainted(s) == [p \in DOMAIN s |-> IF p \in Frames THEN [s[p] EXCEPT !.taint = TRUE] ELSE s[p]]

Abort(s) ==
    /\ ctl' = "exc"
    /\ stack' = <<>>
    /\ objs' = [objs EXCEPT ![cur].s = Tainted(s)]
    /\ UNCHANGED <<env, cur, credit, polled, evals, outer>>

ThrowPoll(i) ==
    /\ Unpolled(i, "src")
    /\ Abort([objs[cur].s EXCEPT ![Append(Top.p, i)].st = Bump(@)])

ThrowEval(args) ==
    /\ EvalGuard(args)
    /\ Abort([objs[cur].s EXCEPT ![Top.p].st = Bump(@)])

ThrowOther ==
    /\ ctl = "run"
    /\ Abort(objs[cur].s)

EndExc ==
    /\ ctl = "exc"
    /\ Leave
    /\ UNCHANGED <<env, objs>>

=============================================================================

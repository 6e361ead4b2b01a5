------------------------------- MODULE LazyMC -------------------------------
(* Model checking of Lazy.tla: the properties, stated in terms of what the    *)
(* user can see, hold in every behaviour.                                     *)
EXTENDS Lazy, LazyFun

CONSTANTS Throws        \* whether exceptions are thrown

VARIABLE memo           \* ghost: object -> its last completed call
mcvars == <<vars, memo>>

Blank == [pv |-> <<>>, clean |-> FALSE]

Fn(n, args) == Apply(Graph[n].f, Graph[n].m, args)

MCInit == Init /\ memo = <<>>

DepChoices(n) ==
    { ds \in [Indices(n) -> 0 .. Len(objs)] :
        \A i \in Indices(n) : IF Deps(n)[i].k = "lazy" THEN ds[i] > 0 ELSE ds[i] = 0 }

Running ==
    \/ \E i \in 1 .. 3 : UseVal(i) \/ Poll(i) \/ Push(i)
    \/ (AllObserved /\ Eval(Top.obs, Fn(TopNode, Top.obs)))
    \/ Skip
    \/ Return
    \/ (ctl = "run" /\ \E p \in DOMAIN credit : credit[p] > 0 /\ Compare(p))

Throwing ==
    \/ \E i \in 1 .. 3 : ThrowPoll(i)
    \/ (AllObserved /\ ThrowEval(Top.obs))
    \/ ThrowOther

Ending == ctl = "run" /\ End(State(<<>>).cache)

(* objects come and go between calls, or (if calls are nested) at any moment  *)
Turn == MaxNest > 0 \/ ctl = "idle"

MCNext ==
    \/ (\E v \in Vars, x \in Vals : x # env[v] /\ SetVar(v, x)) /\ UNCHANGED memo
    \/ Turn /\ \E n \in Nodes : \E ds \in DepChoices(n) : Make(n, ds) /\ memo' = Append(memo, Blank)
    \/ Turn /\ \E o \in DOMAIN objs : Copy(o) /\ memo' = Append(memo, memo[o])
    \/ \E o \in DOMAIN objs : Begin(o) /\ UNCHANGED memo
    \/ Running /\ UNCHANGED memo
    \/ Ending /\ memo' = [memo EXCEPT ![cur] = [pv |-> polled, clean |-> TRUE]]
    \/ Throws /\ Throwing /\ memo' = [memo EXCEPT ![cur] = Blank]
    \/ EndExc /\ UNCHANGED memo

MCSpec == MCInit /\ [][MCNext]_mcvars

(* what a call does by itself; variables may change in between for ever        *)
Progress ==
    \/ Running /\ UNCHANGED memo
    \/ Ending /\ memo' = [memo EXCEPT ![cur] = [pv |-> polled, clean |-> TRUE]]
    \/ EndExc /\ UNCHANGED memo
LiveSpec == MCSpec /\ WF_mcvars(Progress)

-----------------------------------------------------------------------------
(* What the user sees                                                         *)

(* The value that an eager evaluation of the whole tree would have, given the *)
(* values its sources were read with in this call.                            *)
RECURSIVE Denote(_)
Denote(p) ==
    LET it == ItemAt[objs[cur].n][p]
    IN CASE it.k = "src" -> polled[p]
         [] it.k = "val" -> State(p).cache
         [] it.k = "lazy" -> Fn(it.n, [i \in Indices(it.n) |-> Denote(Append(p, i))])

Depth == IF ctl = "idle" THEN 0 ELSE 1 + Len(outer)
Finishes == ctl = "run" /\ Depth' < Depth
Sources(n) == { p \in Paths[n] : ItemAt[n][p].k = "src" }

(* L01, L06: every completed call returns what eager evaluation would return  *)
FreshResult == [][Finishes => State(<<>>).cache = Denote(<<>>)]_mcvars

(* L02: a call that sees the same source values as the one before runs nothing *)
Minimal == [][Finishes /\ memo[cur].clean /\ memo[cur].pv = polled
                => \A p \in DOMAIN evals : evals[p] = 0]_mcvars
OnceEach == ctl = "run" => \A p \in DOMAIN evals : evals[p] <= 1

(* L02: early cut-off: a function whose dependencies all kept their values     *)
(* does not run, whatever happened further down                               *)
CutOff == [][ctl = "run" /\ ctl' = "run" /\ Depth' = Depth =>
             \A p \in DOMAIN evals :
                evals'[p] > evals[p] =>
                   \/ State(p).cache = NONE
                   \/ State(p).taint
                   \/ \E i \in Indices(Node(p)) :
                         State(p).used[i] # State(Append(p, i)).cache]_mcvars

(* L03: every source is read exactly once per completed call, and objects are  *)
(* only ever worked on in a call                                              *)
PolledAll == [][Finishes => \A p \in Sources(objs[cur].n) : polled[p] # NONE]_mcvars
OnlyInCalls == [][ctl = "idle" => \A o \in DOMAIN objs : objs'[o].s = objs[o].s]_mcvars

(* L04 *)
ComparedOnce == ctl = "run" =>
    \A p \in DOMAIN credit : credit[p] <= IF p \in Sources(objs[cur].n) THEN 1 ELSE evals[p]

(* L05: a call works on its own object only                                   *)
Isolated == [][\A o \in DOMAIN objs : o # cur => objs'[o].s = objs[o].s]_mcvars

(* L08: the state of a function moves on exactly when the function runs        *)
OwnState == [][\A o \in DOMAIN objs : \A p \in DOMAIN objs[o].s :
                 objs'[o].s[p].st >= objs[o].s[p].st]_mcvars

(* every call comes to an end                                                 *)
Terminates == (ctl = "run") ~> (ctl = "idle")
=============================================================================

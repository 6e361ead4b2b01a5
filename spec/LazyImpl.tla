------------------------------ MODULE LazyImpl ------------------------------
(***************************************************************************)
(* The algorithm of lazy.h, run in lockstep with Lazy.tla (with none of its *)
(* obligations enforced: Checks = {}), which keeps the book.  The algorithm *)
(* knows caches and `changed' flags only; Refines says that each decision it *)
(* takes is one that Lazy.tla allows.                                       *)
(*                                                                          *)
(* Three switches turn repairs that were made in lazy.h off again, or plant *)
(* a bug: TLC then finds the failing history (see tools/selftest.py).       *)
(***************************************************************************)
EXTENDS LazyMC

CONSTANTS ResetOnException,     \* caches are dropped when an exception escapes
          CompareResult,        \* `changed' is computed from the values
          KeepState             \* functions and dependencies are used in place

VARIABLES ic,       \* objects -> path -> cached value (NONE: empty)
          ich,      \* per frame: dependencies -> changed flag
          iout      \* the same of calls that wait

implvars == <<mcvars, ic, ich, iout>>

IDepth == Len(ich)
ICache(p) == ic[cur][p]
Flagged == \E i \in DOMAIN ich[IDepth] : ich[IDepth][i]
IChanged == ICache(Top.p) = NONE \/ Flagged

NoFlags(n) == [i \in Indices(n) |-> FALSE]

IInit == MCInit /\ ic = <<>> /\ ich = <<>> /\ iout = <<>>

IMake(n, ds) ==
    /\ Make(n, ds)
    /\ ic' = Append(ic, [p \in Paths[n] |->
                IF p = <<>> THEN NONE
                ELSE IF Deps(n)[Head(p)].k = "lazy" THEN ic[ds[Head(p)]][Tail(p)] ELSE NONE])
    /\ memo' = Append(memo, Blank)
    /\ UNCHANGED <<ich, iout>>

(* a source is a lazy function of a value that claims to change every time *)
IPoll(i) ==
    /\ Poll(i)
    /\ LET q == Append(Top.p, i)
           x == Now(Deps(TopNode)[i].v)
       IN  /\ ich' = [ich EXCEPT ![IDepth][i] = ICache(q) = NONE \/ ICache(q) # x]
           /\ ic' = [ic EXCEPT ![cur][q] = IF KeepState THEN x ELSE @]
    /\ UNCHANGED <<memo, iout>>

IPush(i) ==
    /\ Push(i)
    /\ ich' = Append(ich, NoFlags(Deps(TopNode)[i].n))
    /\ UNCHANGED <<ic, memo, iout>>

IUseVal(i) == UseVal(i) /\ UNCHANGED <<ic, ich, memo, iout>>

(* what the frame reports upwards is kept in its flags: <<changed>> *)
IEval ==
    /\ AllObserved
    /\ IChanged
    /\ LET p == Top.p
           r == Fn(TopNode, Top.obs)
           c == IF CompareResult THEN ICache(p) = NONE \/ ICache(p) # r ELSE TRUE
       IN  /\ Eval(Top.obs, r)
           /\ ic' = [ic EXCEPT ![cur][p] = IF KeepState \/ p = <<>> THEN r ELSE @]
           /\ ich' = [ich EXCEPT ![IDepth] = <<c>>]
    /\ UNCHANGED <<memo, iout>>

ISkip ==
    /\ AllObserved
    /\ ~IChanged
    /\ Skip
    /\ ich' = [ich EXCEPT ![IDepth] = <<FALSE>>]
    /\ UNCHANGED <<ic, memo, iout>>

IReturn ==
    /\ Return
    /\ LET i == Top.p[Len(Top.p)]
       IN  ich' = [SubSeq(ich, 1, IDepth - 1) EXCEPT ![IDepth - 1][i] = ich[IDepth][1]]
    /\ UNCHANGED <<ic, memo, iout>>

(* flags are local variables: they are there again when the call goes on      *)
ILeave == IF iout = <<>> THEN ich' = <<>> /\ UNCHANGED iout
          ELSE ich' = iout[Len(iout)] /\ iout' = SubSeq(iout, 1, Len(iout) - 1)

IEnd ==
    /\ Ending
    /\ memo' = [memo EXCEPT ![cur] = [pv |-> polled, clean |-> TRUE]]
    /\ ILeave
    /\ UNCHANGED ic

(* unwinding drops the cache of every function on the stack, and that of the *)
(* source that was being read                                                *)
IAbort(ps) ==
    /\ ic' = IF ResetOnException
             THEN [ic EXCEPT ![cur] = [p \in DOMAIN ic[cur] |->
                                         IF p \in Frames \cup ps THEN NONE ELSE ic[cur][p]]]
             ELSE ic
    /\ ich' = <<>>
    /\ memo' = [memo EXCEPT ![cur] = Blank]
    /\ UNCHANGED iout

INext ==
    \/ (\E v \in Vars, x \in Vals : x # env[v] /\ SetVar(v, x)) /\ UNCHANGED <<memo, ic, ich, iout>>
    \/ Turn /\ \E n \in Nodes : \E ds \in DepChoices(n) : IMake(n, ds)
    \/ Turn /\ \E o \in DOMAIN objs : Copy(o) /\ memo' = Append(memo, memo[o]) /\ ic' = Append(ic, ic[o]) /\ UNCHANGED <<ich, iout>>
    \/ \E o \in DOMAIN objs : Begin(o) /\ ich' = <<NoFlags(objs[o].n)>> /\ UNCHANGED <<memo, ic>>
                                /\ iout' = IF ctl = "run" THEN Append(iout, ich) ELSE iout
    \/ \E i \in 1 .. 3 : IUseVal(i) \/ IPoll(i) \/ IPush(i)
    \/ IEval \/ ISkip \/ IReturn \/ IEnd
    \/ Throws /\ \E i \in 1 .. 3 : ThrowPoll(i) /\ IAbort({Append(Top.p, i)})
    \/ Throws /\ AllObserved /\ IChanged /\ ThrowEval(Top.obs) /\ IAbort({})
    \/ Throws /\ ctl = "run" /\ Top.ph = "poll" /\ ThrowOther /\ IAbort({})
    \/ EndExc /\ ILeave /\ UNCHANGED <<memo, ic>>

ISpec == IInit /\ [][INext]_implvars

-----------------------------------------------------------------------------
Refines ==
    /\ AllObserved =>
          /\ IChanged => MayEval
          /\ ~IChanged => ~MustEval /\ State(Top.p).cache # NONE
    /\ (ctl = "run" /\ Top.ph = "done") => ICache(Top.p) = State(Top.p).cache
=============================================================================

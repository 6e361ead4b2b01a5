----------------------------- MODULE LazyTrace -----------------------------
(***************************************************************************)
(* Trace validation: is what a program that uses the real lazy.h did a      *)
(* behaviour of Lazy.tla?  The file named by the environment variable       *)
(* TRACE_FILE holds the graph of the program, the obligations to enforce,   *)
(* and any number of recorded runs.  A run is accepted if all its events    *)
(* can be explained; TLC prints <<"ACCEPT", run>> for each accepted run.    *)
(***************************************************************************)
EXTENDS Lazy, LazyFun, Json, IOUtils

Input == JsonDeserialize(IOEnv.TRACE_FILE)
TGraph == Input.graph
TVars == 1 .. Input.nvars
TChecks == { Input.checks[i] : i \in DOMAIN Input.checks }
Runs == Input.runs

VARIABLES tr, l
tvars == <<env, objs, ctl, cur, stack, credit, polled, evals, outer, tr, l>>

TInit ==
    /\ tr \in DOMAIN Runs
    /\ l = 1
    /\ env = [v \in Vars |-> Runs[tr].init[v]]
    /\ objs = <<>>
    /\ ctl = "idle"
    /\ cur = 0
    /\ stack = <<>>
    /\ credit = <<>>
    /\ polled = <<>>
    /\ evals = <<>>
    /\ outer = <<>>

Ev == Runs[tr].ev[l]
Is(e) == l <= Len(Runs[tr].ev) /\ Ev.e = e
Take == l' = l + 1 /\ UNCHANGED tr

(* the event names the function (node, dependency); dependency 0: the node's *)
(* own function                                                              *)
Names(p, n, i) ==
    IF i = 0 THEN ItemAt[objs[cur].n][p].k = "lazy" /\ Node(p) = n
    ELSE /\ p # <<>>
         /\ p[Len(p)] = i
         /\ ItemAt[objs[cur].n][p].k # "lazy"
         /\ Node(SubSeq(p, 1, Len(p) - 1)) = n

Own(p, k) == On("STATE") /\ k >= 0 => k = State(p).st + 1

TSet == Is("set") /\ SetVar(Ev.v, Ev.x) /\ Take
TMake == Is("make") /\ Make(Ev.n, Ev.ds) /\ Take
TCopy == Is("copy") /\ Copy(Ev.o) /\ Take
TMove == Is("move") /\ Move(Ev.o) /\ Take
TDrop == Is("drop") /\ Drop(Ev.o) /\ Take
TCall == Is("call") /\ Begin(Ev.o) /\ Take
TPoll == /\ Is("poll")
         /\ ctl = "run"
         /\ TopNode = Ev.n
         /\ Poll(Ev.i)
         /\ On("RES") => Ev.x = Now(Deps(Ev.n)[Ev.i].v)
         /\ Own(Append(Top.p, Ev.i), Ev.k)
         /\ Take
TEval == /\ Is("eval")
         /\ ctl = "run"
         /\ TopNode = Ev.n
         /\ Eval(Ev.a, Ev.r)
         /\ Own(Top.p, Ev.k)
         /\ Take
TCmp == /\ Is("cmp")
        /\ IF On("CMP")
           THEN ctl = "run" /\ \E p \in DOMAIN credit : Names(p, Ev.n, Ev.i) /\ Compare(p)
           ELSE UNCHANGED vars
        /\ Take
TRet == Is("ret") /\ End(Ev.x) /\ Take
TThrow ==
    /\ Is("throw")
    /\ ctl = "run"
    /\ CASE Ev.w = "poll" -> TopNode = Ev.n /\ ThrowPoll(Ev.i) /\ Own(Append(Top.p, Ev.i), Ev.k)
         [] Ev.w = "eval" -> TopNode = Ev.n /\ ThrowEval(Ev.a) /\ Own(Top.p, Ev.k)
         [] OTHER -> ThrowOther
    /\ Take
TExc == Is("exc") /\ EndExc /\ Take

(* steps that leave no trace                                                 *)
Silent ==
    /\ ctl = "run"
    /\ \/ \E i \in Indices(TopNode) : UseVal(i) \/ Push(i)
       \/ Skip
       \/ Return
    /\ UNCHANGED <<tr, l>>

Done ==
    /\ l = Len(Runs[tr].ev) + 1
    /\ ctl = "idle"
    /\ PrintT(<<"ACCEPT", tr>>)
    /\ l' = l + 1
    /\ UNCHANGED <<env, objs, ctl, cur, stack, credit, polled, evals, outer, tr>>

TNext ==
    \/ TSet \/ TMake \/ TCopy \/ TMove \/ TDrop \/ TCall \/ TPoll \/ TEval \/ TCmp
    \/ TRet \/ TThrow \/ TExc \/ Silent \/ Done

TSpec == TInit /\ [][TNext]_tvars

(* diagnosis of a rejected run: how far can it be explained?                 *)
Progressed == PrintT(<<"AT", tr, l>>)
=============================================================================

------------------------------ MODULE LazyGen ------------------------------
(***************************************************************************)
(* Scripts for the harness, from the specification.  The history variable   *)
(* `script' holds the operations so far; it is not part of the VIEW, so TLC *)
(* keeps one script per reachable state and prints one script per operation *)
(* that is possible there: together they cover every transition of the      *)
(* (operation-level) state graph.  In simulation mode, one long script per  *)
(* behaviour is printed.                                                    *)
(*                                                                          *)
(* Exceptions and changes in the middle of a call are prepared by arming a  *)
(* function: the next time it runs it throws, sets a variable, or calls or   *)
(* copies an object (that is not being called itself).                      *)
(***************************************************************************)
EXTENDS Lazy, LazyFun, Json, IOUtils

Input == JsonDeserialize(IOEnv.GEN_FILE)
TGraph == Input.graph
TVars == 1 .. Input.nvars
TVals == 0 .. Input.nvals - 1
TMaxObjs == Input.maxobjs
Ops == { Input.ops[i] : i \in DOMAIN Input.ops }
MaxLen == Input.maxlen
PrintLen == Input.printlen      \* simulation: print at this length

VARIABLES script, armed
gvars == <<env, objs, ctl, cur, stack, credit, polled, evals, outer, script, armed>>
GView == <<env, objs, ctl, cur, stack, outer, armed>>

NoArm == [n |-> 0, i |-> 0, w |-> "none", v |-> 0, x |-> 0]

GInit ==
    /\ Init
    /\ env = [v \in Vars |-> 0]
    /\ script = <<>>
    /\ armed = NoArm

Fn(n, args) == Apply(Graph[n].f, Graph[n].m, args)

DepChoices(n) ==
    { ds \in [Indices(n) -> 0 .. Len(objs)] :
        \A i \in Indices(n) : IF Deps(n)[i].k = "lazy" THEN ds[i] > 0 ELSE ds[i] = 0 }

Op(op) == /\ Len(script) < MaxLen
          /\ script' = Append(script, op)
          /\ (PrintLen = 0 /\ op[1] = "call") => PrintT(<<"SCRIPT", ToJson(script')>>)
          /\ (PrintLen > 0 /\ Len(script') = PrintLen) => PrintT(<<"SCRIPT", ToJson(script')>>)

(* variables only change when it is the user's turn; armed functions aside   *)
GSet == /\ ctl = "idle" /\ "set" \in Ops
        /\ \E v \in Vars, x \in Vals :
              /\ x # env[v] \/ "reset" \in Ops
              /\ SetVar(v, x)
              /\ Op(<<"set", v, x>>)
        /\ UNCHANGED armed

Made(n) == \E o \in DOMAIN objs : objs[o].n = n
GMake == /\ ctl = "idle"
         /\ \E n \in Nodes : \E ds \in DepChoices(n) :
              /\ Made(n) => "remake" \in Ops
              /\ Make(n, ds)
              /\ Op(<<"make", n, ds>>)
         /\ UNCHANGED armed

GObj == /\ ctl = "idle"
        /\ \E o \in DOMAIN objs :
              \/ "copy" \in Ops /\ Copy(o) /\ Op(<<"copy", o>>)
              \/ "move" \in Ops /\ Move(o) /\ Op(<<"move", o>>)
              \/ "drop" \in Ops /\ Drop(o) /\ Op(<<"drop", o>>)
        /\ UNCHANGED armed

(* with "top": only objects of the last node are called                      *)
GCall == /\ ctl = "idle"
         /\ \E o \in DOMAIN objs :
              /\ "top" \in Ops => objs[o].n = Len(Graph)
              /\ Begin(o) /\ Op(<<"call", o>>)
         /\ UNCHANGED armed

GArm == /\ ctl = "idle"
        /\ armed = NoArm
        /\ objs # <<>>
        /\ \E n \in Nodes : \E i \in 0 .. Arity(n) :
              /\ i > 0 => Deps(n)[i].k = "src"
              /\ \/ /\ "throw" \in Ops
                    /\ armed' = [NoArm EXCEPT !.n = n, !.i = i, !.w = "throw"]
                    /\ Op(<<"arm", n, i, "throw">>)
                 \/ /\ "mid" \in Ops
                    /\ \E v \in Vars, x \in Vals :
                         /\ x # env[v]
                         /\ armed' = [NoArm EXCEPT !.n = n, !.i = i, !.w = "set", !.v = v, !.x = x]
                         /\ Op(<<"arm", n, i, "set", v, x>>)
                 \/ /\ "nest" \in Ops
                    /\ \E o \in DOMAIN objs :
                         /\ objs[o].live
                         /\ \/ /\ armed' = [NoArm EXCEPT !.n = n, !.i = i, !.w = "call", !.x = o]
                               /\ Op(<<"arm", n, i, "call", o>>)
                            \/ /\ "copy" \in Ops
                               /\ armed' = [NoArm EXCEPT !.n = n, !.i = i, !.w = "clone", !.x = o]
                               /\ Op(<<"arm", n, i, "clone", o>>)
        /\ UNCHANGED vars

Hit(n, i, w) == armed.n = n /\ armed.i = i /\ armed.w = w
Disarm == armed' = NoArm
EnvAfter(n, i) == IF Hit(n, i, "set") THEN [env EXCEPT ![armed.v] = armed.x] ELSE env

(* the lowest dependency first: the order does not matter for the scripts    *)
First(i) == i \in Indices(TopNode) /\ \A j \in 1 .. i - 1 : Top.obs[j] # NONE

(* the function that runs next                                               *)
AtPoll(i) == First(i) /\ Unpolled(i, "src")
AtEval == AllObserved /\ MustEval
Nested(w) == \/ \E i \in Indices(TopNode) : AtPoll(i) /\ Hit(TopNode, i, w)
             \/ AtEval /\ Hit(TopNode, 0, w)

GNest == /\ ctl = "run"
         /\ \/ Nested("call") /\ IF Free(armed.x) THEN Begin(armed.x) ELSE UNCHANGED vars
            \/ Nested("clone") /\ IF Free(armed.x) /\ Len(objs) < MaxObjs THEN Copy(armed.x) ELSE UNCHANGED vars
         /\ Disarm
         /\ UNCHANGED script

GStep ==
    /\ ctl = "run"
    /\ ~Nested("call") /\ ~Nested("clone")
    /\ \/ \E i \in Indices(TopNode) :
            /\ First(i)
            /\ \/ (UseVal(i) \/ Push(i)) /\ UNCHANGED armed
               \/ /\ Unpolled(i, "src")
                  /\ IF Hit(TopNode, i, "throw") THEN ThrowPoll(i) /\ Disarm
                     ELSE IF Hit(TopNode, i, "set")
                     THEN /\ Disarm
                          /\ env' = EnvAfter(TopNode, i)
                          /\ LET q == Append(Top.p, i)
                                 x == Now(Deps(TopNode)[i].v)
                             IN  /\ Observe(i, x)
                                 /\ objs' = [objs EXCEPT ![cur].s[q].cache = x]
                          /\ UNCHANGED <<ctl, cur, credit, polled, evals, outer>>
                     ELSE Poll(i) /\ UNCHANGED armed
       \/ /\ AllObserved /\ MustEval
          /\ IF Hit(TopNode, 0, "throw") THEN ThrowEval(Top.obs) /\ Disarm
             ELSE IF Hit(TopNode, 0, "set")
             THEN /\ Disarm
                  /\ env' = EnvAfter(TopNode, 0)
                  /\ objs' = [objs EXCEPT ![cur].s[Top.p].cache = Fn(TopNode, Top.obs),
                                          ![cur].s[Top.p].used = Top.obs]
                  /\ stack' = [stack EXCEPT ![Len(stack)].ph = "done"]
                  /\ UNCHANGED <<ctl, cur, credit, polled, evals, outer>>
             ELSE Eval(Top.obs, Fn(TopNode, Top.obs)) /\ UNCHANGED armed
       \/ Skip /\ UNCHANGED armed
       \/ Return /\ UNCHANGED armed
       \/ End(State(<<>>).cache) /\ UNCHANGED armed
    /\ UNCHANGED script

GExc == EndExc /\ UNCHANGED <<script, armed>>

GNext == GSet \/ GMake \/ GObj \/ GCall \/ GArm \/ GNest \/ GStep \/ GExc
GSpec == GInit /\ [][GNext]_gvars
=============================================================================

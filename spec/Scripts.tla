------------------------------ MODULE Scripts -------------------------------
(***************************************************************************)
(* Generic script generator: explores the state graph of a component        *)
(* specification, and prints, for every transition, a shortest script that  *)
(* ends with it (the history is not part of the VIEW).  Used together with  *)
(* invariants of the component to model check the specification itself.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANTS Input,           \* configuration and bounds, from the file
          Start(_),
          Ops(_,_),        \* configuration, state -> set of enabled operations
          Canon(_,_,_),    \* configuration, state, operation -> an allowed observation
          After(_,_,_,_),
          Probe(_,_),      \* configuration, state -> operations that look at the state
          Quiet(_)         \* operations that need no script of their own

VARIABLES st, script

GInit == st = Start(Input.cfg) /\ script = <<>>
GNext ==
    /\ Len(script) < Input.maxlen
    /\ \E op \in Ops(Input.cfg, st) :
          /\ st' = After(Input.cfg, st, op, Canon(Input.cfg, st, op))
          /\ script' = Append(script, op)
          /\ (Quiet(op) \/ PrintT(<<"SCRIPT", ToJson(script' \o Probe(Input.cfg, st'))>>))
GSpec == GInit /\ [][GNext]_<<st, script>>
GView == st
=============================================================================

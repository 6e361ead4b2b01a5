------------------------------- MODULE Replay -------------------------------
(***************************************************************************)
(* Generic judge: did the real code behave as a component specification     *)
(* says?  A component specification gives the state of the component after  *)
(* each operation (Start, After) and which observations an operation may    *)
(* have (Ok).  The file named by TRACE_FILE holds recorded runs: the         *)
(* configuration of a program, and the operations it was made to perform    *)
(* with what was observed.  TLC prints <<"ACCEPT", run>> for every run that *)
(* the specification allows, <<"REJECT", run, step, expected>> for others.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANTS Runs,            \* the recorded runs, from the file
          Start(_),        \* configuration -> state
          Enabled(_,_,_),  \* configuration, state, operation -> BOOLEAN
          Ok(_,_,_,_),     \* configuration, state, operation, observation -> BOOLEAN
          Want(_,_,_),     \* configuration, state, operation -> expected observation (for messages)
          After(_,_,_,_)   \* configuration, state, operation, observation -> state

VARIABLES run, pos, st

RInit ==
    /\ run \in DOMAIN Runs
    /\ pos = 1
    /\ st = Start(Runs[run].cfg)

Cfg == Runs[run].cfg
Op == Runs[run].ev[pos].op
Obs == Runs[run].ev[pos].obs

RStep ==
    /\ pos <= Len(Runs[run].ev)
    /\ IF ~Enabled(Cfg, st, Op)
       THEN PrintT(<<"BADOP", run, pos>>) /\ FALSE
       ELSE IF Ok(Cfg, st, Op, Obs)
       THEN /\ st' = After(Cfg, st, Op, Obs)
            /\ pos' = pos + 1
            /\ UNCHANGED run
       ELSE PrintT(<<"REJECT", run, pos, ToJson(Want(Cfg, st, Op))>>) /\ FALSE

RDone ==
    /\ pos = Len(Runs[run].ev) + 1
    /\ PrintT(<<"ACCEPT", run>>)
    /\ pos' = pos + 1
    /\ UNCHANGED <<run, st>>

RNext == RStep \/ RDone
RSpec == RInit /\ [][RNext]_<<run, pos, st>>
=============================================================================

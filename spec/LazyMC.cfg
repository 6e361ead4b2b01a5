SPECIFICATION MCSpec
CONSTANTS
  Graph <- G_chain
  Vars = {1, 2}
  Vals = {0, 1}
  MaxObjs = 2
  MaxNest = 0
  StMax = 0
  Throws = TRUE
  Checks = {"MAY", "MUST", "ARGS", "RES", "CMP", "STATE"}
INVARIANTS TypeOK OnceEach ComparedOnce
PROPERTIES FreshResult Minimal CutOff PolledAll OnlyInCalls Isolated OwnState
CHECK_DEADLOCK FALSE

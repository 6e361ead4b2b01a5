SPECIFICATION ISpec
CONSTANTS
  Graph <- G_chain
  Vars = {1, 2}
  Vals = {0, 1}
  MaxObjs = 2
  MaxNest = 0
  StMax = 0
  Throws = TRUE
  Checks = {}
  ResetOnException = TRUE
  CompareResult = TRUE
  KeepState = TRUE
INVARIANTS TypeOK Refines OnceEach
PROPERTIES FreshResult Minimal CutOff PolledAll OnlyInCalls Isolated
CHECK_DEADLOCK FALSE

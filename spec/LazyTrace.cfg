SPECIFICATION TSpec
CONSTANTS
  Graph <- TGraph
  Vars <- TVars
  Vals = {0}
  MaxObjs = 100000
  MaxNest = 100
  StMax = 1000000000
  Checks <- TChecks
CHECK_DEADLOCK FALSE

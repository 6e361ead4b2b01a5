SPECIFICATION GSpec
CONSTANTS
  Graph <- TGraph
  Vars <- TVars
  Vals <- TVals
  MaxObjs <- TMaxObjs
  MaxNest = 100
  StMax = 0
  Checks = {"MAY", "MUST", "ARGS", "RES", "CMP", "STATE"}
VIEW GView
CHECK_DEADLOCK FALSE

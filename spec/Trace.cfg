SPECIFICATION TraceSpec
CONSTANTS
  Handles <- TraceHandles
  PatternIds = {}
  Toks <- TraceToks
  MaxHist = 100000
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted

SPECIFICATION Spec
CONSTANTS
  Vals = {"0", "1/2", "1", "7/4", "2", "3"}
  Grids <- MCGrids
  MaxN = 4
INVARIANTS ExactlyOnce BinsAreCounters Total OrderFree SplineExact SplineLinear

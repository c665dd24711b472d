SPECIFICATION Spec
CONSTANTS
  Vals <- MCVals
  MaxN = 4
INVARIANTS Best Orthogonal Idempotent SpanOnly InSpace NothingLost SameKernel

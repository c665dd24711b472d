SPECIFICATION Spec
CONSTANTS
  Vals <- MCVals
  MaxN = 3
INVARIANTS Best Orthogonal Idempotent SpanOnly InSpace NothingLost SameKernel

SPECIFICATION Spec
CONSTANTS
  Vals <- MCVals
  MaxN = 5
INVARIANTS Streaming PaddedIsDirect PadSuffices ZeroLagPositive CauchySchwarz TimeReversal ConstantIsUnbiased Bilinear

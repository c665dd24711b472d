SPECIFICATION Spec
CONSTANTS
  Vals <- MCVals
  MaxN = 4
INVARIANTS Streaming PaddedIsDirect PadSuffices ZeroLagPositive CauchySchwarz TimeReversal ConstantIsUnbiased Bilinear

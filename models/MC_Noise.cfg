SPECIFICATION Spec
CONSTANTS
  Vals <- MCVals
  MaxL = 4
  MaxSamples = 4
INVARIANTS MovingAverageRight PeriodicRight PeriodicTooShort Variance StationaryMatrix

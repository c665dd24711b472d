SPECIFICATION Spec
CONSTANTS
  Vals <- MCVals
  MaxL = 5
  MaxSamples = 6
INVARIANTS MovingAverageRight PeriodicRight PeriodicTooShort Variance StationaryMatrix

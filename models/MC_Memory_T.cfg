SPECIFICATION Spec
CONSTANTS
  Vals <- MCVals
  MaxN = 5
  Kernels <- MCKernels
  Dt = "1/2"
INVARIANTS SameDynamics ZeroFirst Causal Linear TruncatedIsZeroed RuleDifference NoKernelNoMemory StartingTimes

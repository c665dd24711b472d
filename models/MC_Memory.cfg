SPECIFICATION Spec
CONSTANTS
  Vals <- MCVals
  MaxN = 4
  Kernels <- MCKernels
  Dt = "1/2"
INVARIANTS SameDynamics ZeroFirst Causal Linear TruncatedIsZeroed RuleDifference NoKernelNoMemory StartingTimes

SPECIFICATION Spec
CONSTANTS
  Vals <- MCVals
  MaxTotal = 4
INVARIANTS EverySampleOnce CutsDoNotMatter OrderDoesNotMatter Twice ZeroLagIsStatic Between Schwarz Description Merging Lags

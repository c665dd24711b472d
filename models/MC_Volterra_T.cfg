SPECIFICATION Spec
CONSTANTS
  MaxN = 5
  Dts = {"1", "1/3"}
  BChoice <- BMatrix
  KChoice <- KMatrix
INVARIANTS RectBack TrapBack MidBack SecondBack InitialValue Linear Basis2 Rescale Causal SmoothLine EulerWithoutKernel Quadratures

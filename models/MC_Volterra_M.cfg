SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  Dts = {"1/2"}
  BChoice <- BMatrix
  KChoice <- KMatrix
INVARIANTS RectBack TrapBack MidBack SecondBack InitialValue Linear Basis2 Rescale Causal SmoothLine EulerWithoutKernel Quadratures

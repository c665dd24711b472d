SPECIFICATION Spec
CONSTANTS
  MaxDeg = 6
  MaxSpl = 6
  MaxStates = 4
INVARIANTS PolyDegree PolyKnown PolyPrimitive FourierOrthonormal FourierDerivatives SplineUnity SplineLocal SplineCalculus SplineInterpolates IndicatorUnity IndicatorInside IndicatorSmooth

SPECIFICATION Spec
CONSTANTS
  MaxDeg = 9
  MaxSpl = 8
  MaxStates = 6
INVARIANTS PolyDegree PolyKnown PolyPrimitive FourierOrthonormal FourierDerivatives SplineUnity SplineLocal SplineCalculus SplineInterpolates IndicatorUnity IndicatorInside IndicatorSmooth

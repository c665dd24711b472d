SPECIFICATION Spec
CONSTANTS
  MaxSplits = 2
INVARIANTS Barycentric Located NoOverlap Covered Monomials

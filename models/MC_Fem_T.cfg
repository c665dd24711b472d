SPECIFICATION Spec
CONSTANTS
  MaxSplits = 3
INVARIANTS Barycentric Located NoOverlap Covered Monomials

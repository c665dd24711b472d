SPECIFICATION Spec
CONSTANTS
  P = 7
  S = 2
  MaxLen = 6
  Dts = {"1", "1/4"}
INVARIANTS WrapInvisible DiscreteIdentity Reversal Uniform VelocityRoundTrip

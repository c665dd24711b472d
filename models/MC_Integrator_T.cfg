SPECIFICATION Spec
CONSTANTS
  MaxN = 6
  Noises = {"0", "1", "-1/2"}
  Starts <- MCStarts
INVARIANTS Restart LinearRun UniformAcceleration Taylor ShortMemory

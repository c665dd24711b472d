SPECIFICATION Spec
CONSTANTS
  Times = {"1/3", "1", "5/2"}
  Ps <- MCPs
  Entries = {"0", "-1", "1/2"}
  Ranks = {1, 2}
INVARIANTS Derivatives AtZero Limits ExpGroup Powers

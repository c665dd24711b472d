SPECIFICATION Spec
CONSTANTS
  Coefs <- MCCoefs
  Times = {"-1", "1/2", "3"}
  MaxN = 2
  Exps <- MCExps
INVARIANTS DerivativesAreDerivatives Families KernelFunctions Remainder

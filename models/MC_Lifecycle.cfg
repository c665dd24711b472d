SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK KernelFromCorrs CorrsFromForce MeanHasGram ProjectionFromCorrs NoSecondWithout Forgets Commute Scoped Emit

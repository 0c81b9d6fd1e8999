CONSTANT Seeds <- TheSeeds
SPECIFICATION Spec
INVARIANT InRange
INVARIANT ZeroIsFinal
PROPERTY StaysZero
CHECK_DEADLOCK FALSE

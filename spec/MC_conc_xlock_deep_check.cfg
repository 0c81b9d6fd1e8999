CONSTANT Scn <- Scenarios
SPECIFICATION Spec
INVARIANT Inv
PROPERTY NoRevival
PROPERTY Finishes
CHECK_DEADLOCK FALSE

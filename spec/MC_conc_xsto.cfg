CONSTANT Scn <- Scenarios
SPECIFICATION SpecEmit
INVARIANT Inv
CHECK_DEADLOCK FALSE

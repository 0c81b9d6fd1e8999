INIT Init
NEXT Next
CONSTANTS
 Dflt = 0
 OverVal <- mOver
 Movable = FALSE
 Rich = FALSE
 MaxLen = 3
INVARIANTS TypeOK Exact
CHECK_DEADLOCK FALSE

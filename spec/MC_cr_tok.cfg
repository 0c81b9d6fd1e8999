INIT Init
NEXT Next
CONSTANTS
 Dflt = 7
 OverVal <- mOver
 Movable = TRUE
 Rich = TRUE
 MaxLen = 3
INVARIANTS TypeOK Exact
CHECK_DEADLOCK FALSE

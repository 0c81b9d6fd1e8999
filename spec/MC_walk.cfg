SPECIFICATION SpecWalk
CONSTANTS
 N = 6
 SSlot <- cS
 WSlot <- cW
 USlot <- cU
 Ty <- cTy
 Ops <- cOps
 Kinds = {0, 1, 2, 4}
 Scripts = {0, 1, 2, 3, 4, 5, 6}
 Classes = {0, 1}
 Mem = TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE

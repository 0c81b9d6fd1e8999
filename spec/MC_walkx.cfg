SPECIFICATION SpecWalk
CONSTANTS
 N = 6
 SSlot <- cS
 WSlot <- cW
 USlot <- cU
 Ty <- cTy
 Ops <- cOps
 Kinds = {0, 1, 2}
 Scripts = {0, 5}
 Classes = {0}
 Mem = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE

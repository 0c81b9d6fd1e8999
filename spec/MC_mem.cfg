SPECIFICATION SpecEmit
CONSTANTS
 N = 2
 SSlot <- cS
 WSlot <- cW
 USlot <- cU
 Ty <- cTy
 Ops <- cOps
 Kinds = {0}
 Scripts = {0}
 Classes = {0}
 Mem = TRUE
INVARIANT Inv
PROPERTY NoRevival
CHECK_DEADLOCK FALSE

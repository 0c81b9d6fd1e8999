SPECIFICATION SpecEmit
CONSTANTS
 N = 3
 SSlot <- cS
 WSlot <- cW
 USlot <- cU
 Ty <- cTy
 Ops <- cOps
 Kinds = {0}
 Scripts = {0}
 Classes = {0}
 Mem = FALSE
INVARIANT Inv
PROPERTY NoRevival
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 N = 2
 SSlot <- cS
 WSlot <- cW
 USlot <- cU
 Ty <- cTy
 Ops <- cOps
 Kinds = {2}
 Scripts = {0}
 Classes = {0}
 Mem = FALSE
INVARIANT Inv
PROPERTY NoRevival
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
CONSTANTS
 NPtr = 3
 NObj = 3
 Kind <- cKind
 ConvC <- cConvC
 ConvA <- cConvA
 Given <- cGiven
 Default <- cDefault
 Hollow = FALSE
 Watch = FALSE
 Scripts = {0}
INVARIANTS OneHolder Known DeletedOnce
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
CONSTANTS
 NPtr = 2
 NObj = 3
 Kind <- cKind
 ConvC <- cConvC
 ConvA <- cConvA
 Given <- cGiven
 Default <- cDefault
 Hollow = TRUE
 Watch = TRUE
 Scripts = {0, 1, 2}
INVARIANTS OneHolder Known DeletedOnce
CHECK_DEADLOCK FALSE

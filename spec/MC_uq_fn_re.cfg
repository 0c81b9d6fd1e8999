INIT Init
NEXT Next
CONSTANTS
 NPtr = 3
 NObj = 2
 Kind <- cKind
 ConvC <- cConvC
 ConvA <- cConvA
 Given <- cGiven
 Default <- cDefault
 Hollow = FALSE
 Watch = TRUE
 Scripts = {0, 1, 2}
INVARIANTS OneHolder Known DeletedOnce
CHECK_DEADLOCK FALSE

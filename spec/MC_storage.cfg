INIT Init
NEXT Next
CONSTANTS
 NBlock = 3
 Types = {1, 2, 3, 4, 5}
 Counts = {1, 2, 7}
VIEW V
INVARIANTS Given Others
CHECK_DEADLOCK FALSE

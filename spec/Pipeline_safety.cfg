CONSTANTS MaxB = 2 MaxW = 2 MaxN = 4 Spurious = TRUE
INIT Init
NEXT Next
PROPERTY Refines
INVARIANTS PInv InOrder StampRight SemBounded AllMerged NoDeadlock
CHECK_DEADLOCK FALSE
VIEW Vw

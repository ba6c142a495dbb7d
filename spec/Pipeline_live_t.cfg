CONSTANTS MaxB = 3 MaxW = 2 MaxN = 4 Spurious = FALSE
SPECIFICATION Spec
PROPERTY Termination
CHECK_DEADLOCK FALSE

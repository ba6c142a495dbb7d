CONSTANTS MaxB = 2 MaxW = 2 MaxN = 3 Spurious = FALSE
SPECIFICATION Spec
PROPERTY Termination
CHECK_DEADLOCK FALSE

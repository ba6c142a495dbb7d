SPECIFICATION PSpec
INVARIANT PInv
CHECK_DEADLOCK FALSE

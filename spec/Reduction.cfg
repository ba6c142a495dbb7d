CONSTANTS MaxNodes = 4
SPECIFICATION Spec
INVARIANTS SameAsSequential LocalIsLocal PythonSame RemainsFit
CHECK_DEADLOCK FALSE

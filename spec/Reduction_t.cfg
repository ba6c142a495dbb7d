CONSTANTS MaxNodes = 5
SPECIFICATION Spec
INVARIANTS SameAsSequential LocalIsLocal PythonSame RemainsFit
CHECK_DEADLOCK FALSE

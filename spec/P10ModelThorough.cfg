SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANT Memoryless
INVARIANT Report
CHECK_DEADLOCK FALSE

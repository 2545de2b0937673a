SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANT Memoryless
INVARIANT Report
CHECK_DEADLOCK FALSE

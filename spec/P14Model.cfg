SPECIFICATION Spec
CONSTANTS MaxLen = 4 MaxBatch = 3
INVARIANTS Aligned Raised Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxLen = 6 MaxBatch = 4
INVARIANTS Aligned Raised Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE

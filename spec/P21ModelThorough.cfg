SPECIFICATION Spec
CONSTANTS MaxOps = 5 MaxDepth = 4
INVARIANTS DepthRight Restored Emit
CHECK_DEADLOCK FALSE

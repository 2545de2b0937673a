SPECIFICATION Spec
CONSTANTS MaxOps = 4 MaxDepth = 3
INVARIANTS DepthRight Restored Emit
CHECK_DEADLOCK FALSE

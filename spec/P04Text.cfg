SPECIFICATION Spec
CONSTANTS Depth = 2 MaxLen = 4
INVARIANTS ReadsBack Stable PrettyTells Emit
CHECK_DEADLOCK FALSE

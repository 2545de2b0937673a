SPECIFICATION Spec
CONSTANTS Depth = 2 MaxLen = 6
INVARIANTS ReadsBack Stable PrettyTells Emit
CHECK_DEADLOCK FALSE

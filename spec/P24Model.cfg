CONSTANTS Depth = 2 Deeper = 1
INIT Init
NEXT Next
INVARIANTS LawReplay LawPrecedence LawRefused LawPlan
CHECK_DEADLOCK FALSE

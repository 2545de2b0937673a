CONSTANTS Depth = 2 Deeper = 2
INIT Init
NEXT Next
INVARIANTS LawReplay LawPrecedence LawRefused LawPlan
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS N = 4 Types = "two"
INVARIANTS Trees WellTyped EveryWire OneLink Planar Back Emit
CHECK_DEADLOCK FALSE

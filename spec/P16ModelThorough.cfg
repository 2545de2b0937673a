SPECIFICATION Spec
CONSTANTS N = 5 Types = "two"
INVARIANTS Trees WellTyped EveryWire OneLink Planar Back Emit
CHECK_DEADLOCK FALSE

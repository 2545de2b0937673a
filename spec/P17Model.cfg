SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT MaxWords = 5
INVARIANT Good
INVARIANT Shapes
INVARIANT Emit

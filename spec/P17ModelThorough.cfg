SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT MaxWords = 7
INVARIANT Good
INVARIANT Shapes
INVARIANT Emit

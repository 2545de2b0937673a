SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxWords = 2
 PairRules = FALSE
INVARIANT Good
INVARIANT Emit

SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxWords = 2
 PairRules = TRUE
INVARIANT Good
INVARIANT Emit

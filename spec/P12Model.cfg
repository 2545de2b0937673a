SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxWords = 3
 MaxRaise = 1
 MaxUnary = 1
 Lexicon = "small"
INVARIANT Sound
INVARIANT Emit

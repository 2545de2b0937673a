SPECIFICATION Spec
CONSTANTS Lexicon = {1, 2, 3, 5} MaxWords = 3 MaxSwaps = 1
INVARIANTS LawDrawn Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Lexicon = {1, 2, 3, 4, 5, 6} MaxWords = 3 MaxSwaps = 2
INVARIANTS LawDrawn Emit
CHECK_DEADLOCK FALSE

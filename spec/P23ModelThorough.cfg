SPECIFICATION Spec
CONSTANTS MaxSents = 2 MaxNouns = 5 Freqs = {1, 2, 3} Heads = {"bare", "runs", "rains", "likes", "often", "says", "help"}
INVARIANTS LawOneWire LawPruned LawThreaded LawSplit LawForms LawMonotone LawTop Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxSents = 2 MaxNouns = 3 Freqs = {1, 2} Heads = {"bare", "rains", "likes", "often", "help"}
INVARIANTS LawOneWire LawPruned LawThreaded LawSplit LawForms LawMonotone LawTop Emit
CHECK_DEADLOCK FALSE

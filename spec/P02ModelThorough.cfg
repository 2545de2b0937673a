SPECIFICATION Spec
CONSTANTS MaxLayers = 5
 MaxWidth = 5
 MaxSteps = 3
CHECK_DEADLOCK FALSE
INVARIANTS Typed Meaning
PROPERTIES Shrinks

SPECIFICATION Spec
CONSTANTS MaxLayers = 4
 MaxWidth = 4
 MaxSteps = 3
CHECK_DEADLOCK FALSE
INVARIANTS Typed Meaning
PROPERTIES Shrinks

SPECIFICATION Spec
CONSTANTS MaxLayers = 3
 MaxWidth = 4
CHECK_DEADLOCK FALSE
INVARIANTS Typed DagOK RotOK RotTwice SnakeOK Compose

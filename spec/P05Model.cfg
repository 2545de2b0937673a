SPECIFICATION Spec
CONSTANTS MaxLayers = 2
 MaxWidth = 4
CHECK_DEADLOCK FALSE
INVARIANTS Typed DagOK RotOK RotTwice SnakeOK Compose

SPECIFICATION Spec
CONSTANTS
  MaxLayers = 3
  MaxWires = 3
INVARIANTS Shown Others Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  MaxLayers = 2
  MaxWires = 3
INVARIANTS Shown Others Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  MaxVal = 3
  Sweeps = 2
INVARIANTS Ordered Inside Short Emit
PROPERTIES BestKept NoLoss
CHECK_DEADLOCK FALSE

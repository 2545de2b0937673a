SPECIFICATION Spec
CONSTANTS
  MaxVal = 2
  Sweeps = 1
INVARIANTS Ordered Inside Short Emit
PROPERTIES BestKept NoLoss
CHECK_DEADLOCK FALSE

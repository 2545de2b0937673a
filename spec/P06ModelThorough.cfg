SPECIFICATION Spec
CONSTANTS MaxLayers = 3
 MaxQ = 3
CHECK_DEADLOCK FALSE
INVARIANTS Typed UnitaryOK DoubleOK DiscardOK CtrlOK

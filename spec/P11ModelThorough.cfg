SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxLayers = 3
 MaxDom = 3
 MaxCod = 3
 MaxWidth = 5
INVARIANTS
 ParamsOnce
 ParamsOnly
 GatesFit
 Connected
 Isometry
 NoExtras
 Traces
 Emit

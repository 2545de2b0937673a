SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxLayers = 2
 MaxDom = 2
 MaxCod = 3
 MaxWidth = 4
INVARIANTS
 ParamsOnce
 ParamsOnly
 GatesFit
 Connected
 Isometry
 NoExtras
 Traces
 Emit

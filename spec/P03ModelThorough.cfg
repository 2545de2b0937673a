SPECIFICATION Spec
CONSTANTS MaxLayers = 4
 MaxWidth = 4
CHECK_DEADLOCK FALSE
INVARIANTS Legal Typed Dag Rot Split Tens

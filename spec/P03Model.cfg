SPECIFICATION Spec
CONSTANTS MaxLayers = 3
 MaxWidth = 3
CHECK_DEADLOCK FALSE
INVARIANTS Legal Typed Dag Rot Split Tens

SPECIFICATION Spec
CONSTANTS MaxOps = 5 MaxObjs = 4 MaxDocs = 2
INVARIANTS Lineage Again Emit
PROPERTIES Untouched
CHECK_DEADLOCK FALSE

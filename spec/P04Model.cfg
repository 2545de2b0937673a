SPECIFICATION Spec
CONSTANTS MaxOps = 4 MaxObjs = 3 MaxDocs = 2
INVARIANTS Lineage Again Emit
PROPERTIES Untouched
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Counts ResumeEqual BestTruth StopExact ModelFileUsable Emit
CONSTANTS
  Shapes <- QShapes
  Ks = {0, 1, 2}
  Scripts <- QScripts
  Crashes = 1

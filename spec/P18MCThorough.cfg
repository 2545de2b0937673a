SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Counts ResumeEqual BestTruth StopExact ModelFileUsable Emit
CONSTANTS
  Shapes <- TShapes
  Ks = {0, 1, 2}
  Scripts <- TScripts
  Crashes = 2

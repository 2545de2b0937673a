SPECIFICATION Spec
CONSTANTS MaxLayers = 4
 MaxWidth = 5
CHECK_DEADLOCK FALSE
INVARIANTS Typed DagInvolution RotInverse RotDouble TransposeTyped Yank Interchange SwapNatural DagWiring Total

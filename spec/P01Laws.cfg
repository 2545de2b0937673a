SPECIFICATION Spec
CONSTANTS MaxLayers = 3
 MaxWidth = 4
CHECK_DEADLOCK FALSE
INVARIANTS Typed DagInvolution RotInverse RotDouble TransposeTyped Yank Interchange SwapNatural DagWiring Total

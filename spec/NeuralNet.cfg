SPECIFICATION Spec
CONSTANTS
 Shape <- ShapeA
 Weights <- WN
 Inputs <- IN2
 Keys = {1, 2}
 KeyMap <- MapInj
INVARIANTS Widths Rectified WholeIsLayers Affine EdgePerWeight EndsAreNodes Controlled HeldAction
CHECK_DEADLOCK FALSE

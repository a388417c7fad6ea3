SPECIFICATION Spec
CONSTANTS
 Shape <- ShapeB
 Weights <- WN
 Inputs <- IN2
 Keys = {1, 2, 3}
 KeyMap <- MapDef
INVARIANTS Widths Rectified WholeIsLayers Affine EdgePerWeight EndsAreNodes Controlled HeldAction
CHECK_DEADLOCK FALSE

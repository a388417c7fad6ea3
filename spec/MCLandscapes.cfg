SPECIFICATION Spec
CONSTANTS Wrappers <- W
 MaxDepth = 2
 BaseBounds <- BB
 Points <- P
INVARIANTS RigidMotion Corners Additive OriginAtOffset QuadraticOptima

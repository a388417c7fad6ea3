SPECIFICATION Spec
CONSTANTS Wrappers <- W
 MaxDepth = 3
 BaseBounds <- BB
 Points <- P
INVARIANTS RigidMotion Corners Additive OriginAtOffset QuadraticOptima

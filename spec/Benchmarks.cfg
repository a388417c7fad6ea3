SPECIFICATION Spec
CONSTANTS Bound = 8
 Dim = 2
INVARIANTS SphereOptimum RastriginOptimum RosenbrockOptimum AckleyOptimum GriewankOptimum WeierstrassOptimum GaussOptimum LunacekFunnels CosineOptima Symmetry ZDTFront

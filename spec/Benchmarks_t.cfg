SPECIFICATION Spec
CONSTANTS Bound = 9
 Dim = 3
INVARIANTS SphereOptimum RastriginOptimum RosenbrockOptimum AckleyOptimum GriewankOptimum WeierstrassOptimum GaussOptimum LunacekFunnels CosineOptima Symmetry ZDTFront

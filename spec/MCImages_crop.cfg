SPECIFICATION Spec
CONSTANTS N = 2  D = 2  F0 = "NV12"
INVARIANTS SamplesInBounds ViewsNest PlanesDisjoint CropExact NoBadCrop
CHECK_DEADLOCK FALSE

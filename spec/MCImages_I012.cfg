SPECIFICATION Spec
CONSTANTS N = 4  D = 1  F0 = "I012"
INVARIANTS SamplesInBounds ViewsNest PlanesDisjoint CropExact NoBadCrop
CHECK_DEADLOCK FALSE

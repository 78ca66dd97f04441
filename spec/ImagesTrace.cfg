SPECIFICATION Spec
INVARIANTS InvSamplesInBounds InvViewsNest
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
PROPERTIES ErrorsHaveNoEffect
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

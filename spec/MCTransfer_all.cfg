CONSTANT Step = 1
CHECK_DEADLOCK FALSE
SPECIFICATION Spec
INVARIANTS TableCorrect Monotone Convex EndPoints Contained

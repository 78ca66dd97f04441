CONSTANT Step = 13
CHECK_DEADLOCK FALSE
SPECIFICATION Spec
INVARIANTS TableCorrect Monotone Convex EndPoints Contained

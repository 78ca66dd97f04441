SPECIFICATION MCSpec
CONSTANTS MaxSteps = 2 Few = FALSE
INVARIANTS IsComposition ClonesEqual Commute WindowsAgree
PROPERTIES Frame
CHECK_DEADLOCK FALSE

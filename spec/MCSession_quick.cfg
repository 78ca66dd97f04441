SPECIFICATION MCSpec
CONSTANTS MaxSteps = 2 Few = TRUE
INVARIANTS IsComposition ClonesEqual Commute WindowsAgree
PROPERTIES Frame
CHECK_DEADLOCK FALSE

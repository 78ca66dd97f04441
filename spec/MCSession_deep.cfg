SPECIFICATION MCSpec
CONSTANTS MaxSteps = 3 Few = TRUE
INVARIANTS IsComposition ClonesEqual Commute WindowsAgree
PROPERTIES Frame
CHECK_DEADLOCK FALSE

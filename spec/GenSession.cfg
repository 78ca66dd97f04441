SPECIFICATION Spec
INVARIANTS IsComposition ClonesEqual
VIEW Compact
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANTS
    Pairs <- MCPairs
    W = 4 MaxH = 8 MaxThreads = 5
INVARIANTS Partition Fair NoRace Confined SameAsSingle Complete StripsAdequate
PROPERTIES Terminates
CHECK_DEADLOCK FALSE

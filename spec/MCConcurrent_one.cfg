SPECIFICATION CSpec
CONSTANTS
    Callers <- Two
    Parts = 3 Workers = 1 Steal = TRUE
INVARIANTS NoInterference Returned
PROPERTIES OneImage AllReturn
CHECK_DEADLOCK FALSE

SPECIFICATION CSpec
CONSTANTS
    Callers <- Two
    Parts = 2 Workers = 2 Steal = TRUE
INVARIANTS NoInterference Returned
PROPERTIES OneImage AllReturn
CHECK_DEADLOCK FALSE

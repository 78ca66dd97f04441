CONSTANTS MaxSize = 14 Planes = 3 Calls = 3
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS GeoSound OutputIsFunction

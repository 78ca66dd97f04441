CONSTANT Codes = {0, 90, 255}
CHECK_DEADLOCK FALSE
SPECIFICATION Spec
INVARIANTS NeutralStays GrayValue Tight BackIsIdentity Range8 Nominal SameColor PrimariesBack

CONSTANT Codes = {0, 1, 16, 40, 75, 128, 190, 230, 254, 255}
CHECK_DEADLOCK FALSE
SPECIFICATION Spec
INVARIANTS NeutralStays GrayValue Tight BackIsIdentity Range8 Nominal SameColor PrimariesBack

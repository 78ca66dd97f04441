SPECIFICATION MCSpec
CONSTANTS
    Srcs = {"I420", "I444", "I210", "NV12", "YUYV", "RGBA", "RGB"}
    Dsts = {"I422", "I410", "I012", "NV12", "YUYV", "BGRA", "BGR"}
    Ws = {2, 6, 10}
    H = 2
    Lens = {1, 2, 4}
    PAD = 1
INVARIANTS ReadsConfined WrittenOnce FromFootprint Complete AllRead
CHECK_DEADLOCK FALSE

"""What is run for which property, see DESIGN.md"""


def gen(module, kind, trace, **kw):
    return dict(module=module, kind=kind, trace=trace, **kw)


def mc(module, cfg, **kw):
    return dict(module=module, cfg=cfg, **kw)


COLOR = [mc("MCColor", "MCColor.cfg", workers=4), mc("MCColor", "MCColor_all.cfg", workers=8, thorough_only=True)]

PROPS = {
    "C01": dict(level="model_checking",
                models=[mc("MCImages", "MCImages_I420.cfg"), mc("MCImages", "MCImages_YUYV.cfg")],
                gens=[gen("GenImages", "construct", "ImagesTrace", scale=3)]),
    "C02": dict(level="model_checking",
                models=[mc("MCImages", "MCImages_NV12.cfg"), mc("MCImages", "MCImages_I012.cfg")],
                gens=[gen("GenImages", "layout", "ImagesTrace", scale=3)]),
    "C03": dict(level="model_checking",
                models=[mc("MCImages", "MCImages_crop.cfg"), mc("MCImages", "MCImages_I410.cfg")],
                gens=[gen("GenImages", "crop", "ImagesTrace", scale=3)]),
    "C04": dict(level="model_checking", models=[mc("MCEngine", "MCEngine.cfg")],
                gens=[gen("GenConvert", "independent", "ConvertTrace", scale=3)]),
    "C05": dict(level="model_checking", models=[mc("MCEngine", "MCEngine.cfg")],
                gens=[gen("GenConvert", "layout", "ConvertTrace", scale=3)]),
    "C06": dict(level="model_checking", models=[],
                gens=[gen("GenConvert", "decide", "ConvertTrace", scale=3)]),
    "C07": dict(level="model_checking", models=[mc("MCParallel", "MCParallel.cfg")],
                gens=[gen("GenConvert", "mt", "ConvertTrace", scale=3)]),
    "C08": dict(level="model_checking", models=[mc("MCEngine", "MCEngine.cfg")],
                gens=[gen("GenConvert", "tile", "ConvertTrace", scale=3)]),
    "C09": dict(level="model_checking", models=[mc("MCEngine", "MCEngine.cfg")],
                gens=[gen("GenConvert", "perturb", "ConvertTrace", scale=3)]),
    "C10": dict(level="model_checking", models=[],
                gens=[gen("GenConvert", "identical", "ConvertTrace", scale=3)]),
    "C11": dict(level="model_checking", models=COLOR,
                gens=[gen("GenColor", "matrix", "ColorTrace", scale=8, thorough=80)]),
    "C12": dict(level="model_checking", models=COLOR,
                gens=[gen("GenColor", "chroma", "ColorTrace", scale=8, thorough=80)]),
    "C13": dict(level="model_checking", models=[mc("MCTransfer", "MCTransfer.cfg", workers=4), mc("MCTransfer", "MCTransfer_all.cfg", workers=8, thorough_only=True)],
                gens=[gen("GenColor", "transfer", "ColorTrace", scale=8, thorough=80), gen("GenColor", "curve", "CurveTrace")]),
    "C14": dict(level="model_checking", models=COLOR,
                gens=[gen("GenColor", "primaries", "ColorTrace", scale=8, thorough=80), gen("GenColor", "mats", "CurveTrace")]),
    "C15": dict(level="model_checking", models=COLOR,
                gens=[gen("GenColor", "ictcp", "ColorTrace", scale=8, thorough=80)]),
    "C16": dict(level="model_checking", models=COLOR,
                gens=[gen("GenColor", "saturate", "ColorTrace", scale=8, thorough=80)]),
    "C17": dict(level="model_checking", models=COLOR,
                gens=[gen("GenColor", "chain", "ChainTrace", scale=3, thorough=40)]),
    "C18": dict(level="model_checking", build=["stable", "plain"], models=[mc("MCResize", "MCResize.cfg")],
                gens=[gen("GenResize", "resize", "ResizeTrace", scale=5, thorough=60)]),
    "C19": dict(level="model_checking", build=["stable", "plain"], models=[mc("MCResize", "MCResize.cfg")],
                gens=[gen("GenResize", "history", "ResizeTrace", scale=6, thorough=60)]),
    "C20": dict(level="model_checking", models=[mc("MCEngine", "MCEngine.cfg")], build=["stable", "nightly"],
                gens=[gen("GenColor", "backend", "BackendTrace", build="all", scale=4, thorough=40),
                      gen("GenColor", "matrix", "ColorTrace", build="nightly", scale=2),
                      gen("GenColor", "chroma", "ColorTrace", build="nightly", scale=2),
                      gen("GenColor", "transfer", "ColorTrace", build="nightly", scale=2),
                      gen("GenColor", "ictcp", "ColorTrace", build="nightly", scale=2),
                      gen("GenColor", "saturate", "ColorTrace", build="nightly", scale=2),
                      gen("GenConvert", "tile", "ConvertTrace", build="nightly", scale=2),
                      gen("GenConvert", "identical", "ConvertTrace", build="nightly", scale=2)]),
    "C21": dict(level="model_checking",
                models=[mc("MCSession", "MCSession_quick.cfg"), mc("MCSession", "MCSession.cfg", workers=8, thorough_only=True),
                        mc("MCSession", "MCSession_deep.cfg", workers=8, thorough_only=True)],
                gens=[gen("GenSession", "session", "SessionTrace", cfg="GenSession.cfg", scale=2)]),
    "C22": dict(level="model_checking",
                models=[mc("MCConcurrent", "MCConcurrent.cfg"), mc("MCConcurrent", "MCConcurrent_one.cfg"),
                        mc("MCConcurrent", "MCConcurrent_three.cfg", workers=8, thorough_only=True)],
                gens=[gen("GenConcurrent", "concurrent", "ConcurrentTrace", thorough=10)]),
}

_TV = ("Trace validation: TLC judges every recorded execution of the real code (public API, no hooks) against the "
       "TLA+ specification; coverage is what the seeded TLA+ scenario generators reach. ")
NOTES = {
    "C01": "Images.tla is explored exhaustively for small images by TLC. " + _TV,
    "C02": "Format table soundness and the image life cycle are explored exhaustively for small images. " + _TV,
    "C03": "Nested windows are explored exhaustively for small images (CropExact). " + _TV,
    "C04": "Engine.tla (the walk over the blocks, for all layouts of formats and lane counts) is explored exhaustively. " + _TV,
    "C05": "Engine.tla is explored exhaustively (ReadsConfined). Inaccessible pages directly before or after planes. " + _TV,
    "C06": "The preconditions of Convert.tla decide. " + _TV,
    "C07": "Parallel.tla: all interleavings of the tasks for all heights and thread counts in the bounds. Real schedules are those rayon happens to use; the number of CPUs is controlled. " + _TV,
    "C08": "Engine.tla is explored exhaustively (FromFootprint). " + _TV,
    "C09": "Engine.tla is explored exhaustively (FromFootprint). " + _TV,
    "C10": _TV,
    "C11": "The oracle (Color.tla, interval arithmetic) is explored by MCColor: constants of the standards, neutrality, inverses, tightness. " + _TV,
    "C12": "The oracle averages over the covered pixels as given by the format table. " + _TV,
    "C13": "MCTransfer verifies the tables of the oracle against the defining equations. The scalar functions are swept through the public API, the vectorized ones through conversions. " + _TV,
    "C14": "MCColor verifies the matrices against the chromaticities. " + _TV,
    "C15": "MCColor verifies the matrices against BT.2100. Colors outside of the gamut are only required to give valid codes. " + _TV,
    "C16": "Out of gamut contents; where the defining equations leave the domain of the transfer functions only valid codes are required. " + _TV,
    "C17": "The bound of a chain is the sum of what half a code of rounding in every intermediate image can do to the last one, computed by the oracle. Chains of up to 6 images. " + _TV,
    "C18": "MCResize explores the index map of the nearest neighbour filter. Every sample is computed by the filters of Resize.tla (kernels.json), except for strong supersampling. " + _TV,
    "C19": "Reused, cloned and failed resizers are compared with new ones, bit for bit. " + _TV,
    "C20": "Both builds (AVX2 and AVX-512) run the same scenarios, their records are compared by TLC, and the AVX-512 records are judged by the oracle too. NEON can't be run here. " + _TV,
    "C21": "Session.tla (operations on images with shared memory) is explored exhaustively for short sequences; the scenarios are behaviours of Session. Of every conversion a part of the samples is computed by the oracle, all of the memory is checked for confinement. " + _TV,
    "C22": "Concurrent.tla: all interleavings of two callers (three in the thorough tier) and the workers of a pool, including callers which are workers. Real schedules are those which happen to occur in 12 repetitions of every scenario. " + _TV,
}
NOT_APPLICABLE = {}

#!/usr/bin/env python3-vt
"""Computes spec/kernels.json: the filters of convolutions at multiples of 1/256, at a scale of 4096. MCResize.tla
verifies properties of them. Run by hand."""
import json
import os
from mpmath import mp, mpf, floor, pi, sin, cos, exp, sqrt

mp.dps = 30


def sinc(x):
    return mpf(1) if x == 0 else sin(pi * x) / (pi * x)


def cubic(b, c):
    def f(x):
        if x < 1:
            return ((12 - 9 * b - 6 * c) * x ** 3 + (-18 + 12 * b + 6 * c) * x ** 2 + (6 - 2 * b)) / 6
        return ((-b - 6 * c) * x ** 3 + (6 * b + 30 * c) * x ** 2 + (-12 * b - 48 * c) * x + (8 * b + 24 * c)) / 6
    return f


FILTERS = {
    "bilinear": (1, lambda x: 1 - x),
    "hamming": (1, lambda x: (mpf("0.54") + mpf("0.46") * cos(pi * x)) * sinc(x)),
    "catmull": (2, cubic(mpf(0), mpf(1) / 2)),
    "mitchell": (2, cubic(mpf(1) / 3, mpf(1) / 3)),
    "gaussian": (3, lambda x: exp(-x * x * 2) / (sqrt(2 * pi) / 2)),
    "lanczos": (3, lambda x: sinc(x) * sinc(x / 3)),
}
t = {k: [int(floor(f(mpf(i) / 256) * 4096 + mpf("0.5"))) for i in range(256 * s)] + [0] for k, (s, f) in FILTERS.items()}
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "kernels.json"), "w").write(
    json.dumps(t, separators=(",", ":")) + "\n")

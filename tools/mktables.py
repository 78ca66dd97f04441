#!/usr/bin/env python3-vt
"""Computes spec/tables.json: the decoding functions (encoded value -> linear light) of the transfer functions at
equidistant points, at a scale of 2^27. MCTransfer.tla verifies the tables against the defining equations with its own
arithmetic. Run by hand."""
import json
import os
from mpmath import mp, mpf, floor

mp.dps = 40
S = 2 ** 27


def gamma(g):
    return lambda e: mpf(e) ** (mpf(g) / 10)


def srgb(e):
    return e / mpf("12.92") if e <= mpf("0.04045") else ((e + mpf("0.055")) / mpf("1.055")) ** mpf("2.4")


def sdr(e):
    return e / mpf("4.5") if e < mpf("0.081") else max(mpf("0.018"), ((e + mpf("0.099")) / mpf("1.099")) ** (1 / mpf("0.45")))


M1, M2 = mpf(2610) / 16384, mpf(2523) / 4096 * 128
C1, C2, C3 = mpf(3424) / 4096, mpf(2413) / 4096 * 32, mpf(2392) / 4096 * 32


def pq(e):
    p = mpf(e) ** (1 / M2)
    return (max(p - C1, mpf(0)) / (C2 - C3 * p)) ** (1 / M1)


def hlg(e):
    a, b, c = mpf("0.17883277"), mpf("0.28466892"), mpf("0.55991073")
    return e * e / 3 if e <= mpf("0.5") else (mp.exp((e - c) / a) + b) / 12


def tab(f, step, n, scale=1):
    return [int(floor(f(mpf(i) / step) * scale * S + mpf("0.5"))) for i in range(n)]


N = 4096 + 512 + 1
t = {
    "Gamma22": tab(gamma(22), 4096, N),
    "Gamma28": tab(gamma(28), 4096, N),
    "SRGB": tab(srgb, 4096, N),
    "SDR": tab(sdr, 4096, N),
    "HLG": tab(hlg, 4096, N),
    # relative to 10000 (PQ) and relative to 1 (PQ1)
    "PQ": tab(pq, 4096, N),
    "PQ1": tab(pq, 32768, 5200, 10000),
}
for k, v in t.items():
    assert v == sorted(v) and v[-1] < 2 ** 31, (k, v[-1])
    print(k, len(v), v[1], v[100], v[-1] / S)
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "tables.json"), "w").write(
    json.dumps(t, separators=(",", ":")) + "\n")

from hypothesis import strategies as st
import numpy as np
import fw, gen, ref
from fw import check, close, unchanged, VARIANTS
from sphbase import *

RULE = ("resolution as for S01; fields sparse and/or full random up to the highest l and m; azimuthal derivative, Laplacian, "
        "raising, lowering (fields with l<=nm) and squared gradient against analytic derivatives of scipy harmonics. "
        "Non-trivial: the field has a mode with l=nl or m=nm and at least two modes.")
DECOYS = True
COUNT = {"quick": 12000, "thorough": 180000}


def strategy(tier):
    return base(tier).flatmap(lambda c: st.tuples(st.just(c), st.booleans()).map(lambda t: dict(t[0], ladder=t[1])))


def corners(tier):
    out = []
    for v in VARIANTS:
        for r in corner_res():
            for lad in (False, True):
                out.append({"variant": v, "res": r, "modes": [], "rand": 9, "exp": 0, "ladder": lad})
                out.append({"variant": v, "res": r, "modes": [[r[0], min(r[0], r[1]), 1.0, 0.5], [r[0], 0, 1.0, 0]],
                            "rand": None, "exp": 0, "ladder": lad})
    # far beyond the usual angular resolution
    big = [[184, 184, 186, 370]] if tier == "quick" else [[184, 184, 186, 370], [257, 130, 258, 262], [300, 40, 301, 81]]
    for i, r in enumerate(big):
        out.append({"variant": VARIANTS[i % 4], "res": r, "modes": [[r[1], r[1], 1.0, 0.5], [r[0], 1, 0.5, 1.0]], "rand": 4, "exp": 0, "ladder": True})
    return out


def run(case, ctx):
    nl, nm = case["res"][:2]
    L = min(nl, nm) if case["ladder"] else None
    s, h, sp, c, pc = setup(case, ctx, L)
    a = amp(sp, c)
    f = ref.flat(sp.synth(c), pc)
    n = nl + 2.0

    def op(name):
        o, back = s.call(name, I=[h], A=[f]).A
        unchanged("input of " + name, f, back)
        return o
    fp = sp.synth(c, "ph")
    close("d/dphi", op("sph_dphi"), ref.flat(fp, pc), 1e-13 * a * n)
    close("Laplacian", op("sph_lap"), ref.flat(sp.lap(c), pc), 1e-13 * a * n * n)
    if case["ladder"]:
        ft = sp.synth(c, "th")
        cot = (sp.ct / sp.st)[:, None]
        e = np.exp(1j * sp.ph)[None, :]
        up = ref.flat(e * (ft + 1j * cot * fp), pc)
        dn = ref.flat(np.conj(e) * (-ft + 1j * cot * fp), pc)
        tol = 2e-12 * a * n * (1 + 0.02 / np.min(sp.st))
        o = op("sph_raise")
        close("raising operator", o, np.stack([up.real, up.imag], 1).ravel(), tol)
        o = op("sph_lower")
        close("lowering operator", o, np.stack([dn.real, dn.imag], 1).ravel(), tol)
        if abs(case["exp"]) < 100:
            g = ref.flat(ft ** 2 + fp ** 2 / (sp.st ** 2)[:, None], pc)
            mx = float(np.max(np.abs(g))) ** 0.5 + a * n * 1e-3
            close("squared angular gradient", op("sph_X"), g, 4 * tol * (mx + tol))
    lab = ["ladder"] if case["ladder"] else []
    nz = np.abs(c) > 0
    if np.any(nz & (sp.l == nl)):
        lab.append("l=nl")
    if np.any(nz & (sp.m == nm)):
        lab.append("m=nm")
    if np.count_nonzero(nz) >= 2:
        lab.append(">=2 modes")
    return lab


def nontrivial(case, labels):
    return ">=2 modes" in labels and ("l=nl" in labels or "m=nm" in labels)

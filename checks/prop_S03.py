from hypothesis import strategies as st
import numpy as np
import fw, gen, ref
from fw import check, close, unchanged, VARIANTS
from sphbase import *

RULE = ("resolution as for S01; sparse and/or full random spectra up to the highest l and m, filtered 1-3 times in a row; "
        "compared mode by mode with the documented factor. Non-trivial: content at l>=0.7 nl (where the filter acts).")
DECOYS = True
COUNT = {"quick": 16000, "thorough": 240000}


def strategy(tier):
    return base(tier).flatmap(lambda c: st.integers(1, 3).map(lambda k: dict(c, repeat=k)))


def corners(tier):
    out = []
    for v in VARIANTS:
        for r in corner_res():
            out.append({"variant": v, "res": r, "modes": [], "rand": 3, "exp": 0, "repeat": 2})
            for m in (0, min(r[1], r[0])):
                for l in (r[0], max(m, r[0] - 1)):
                    out.append({"variant": v, "res": r, "modes": [[l, m, 1.0, 1.0]], "rand": None, "exp": 0, "repeat": 1})
    return out


def run(case, ctx):
    s, h, sp, c, pc = setup(case, ctx)
    a = amp(sp, c)
    v = ref.flat(sp.synth(c), pc)
    for _ in range(case["repeat"]):
        v = s.call("sph_filter", I=[h], A=[v]).A[0]
        c = sp.filt(c)
        close("filtered field", v, ref.flat(sp.synth(c), pc), 1e-12 * a * max(1.0, case["res"][0] / 20.0) ** 2)
        o = s.call("sph_to_Ylm", I=[h], A=[v]).A[0]
        close("filtered coefficients", o, np.stack([c.real, c.imag], 1).ravel(), 4e-12 * a)
    c0 = ref.coefs(sp, case["modes"], case["rand"])
    return ["high l"] if np.any((np.abs(c0) > 0) & (sp.l >= 0.7 * sp.nl)) else []


def nontrivial(case, labels):
    return "high l" in labels and case["res"][0] >= 2

from hypothesis import strategies as st
import numpy as np
import fw, gen, ref
from fw import check, close, unchanged

TARGETS = [(v, f) for v in ("fd_lon", "cheb_lon") for f in ("opt", "san")]

RULE = ("n in 2..300 (600 thorough), 1/250 of the cases 512..2049, corner cases to 70001, any interval, arbitrary samples (random, spikes, mixed magnitudes, alternating, single "
        "Chebyshev modes); compared with synthesis * exp(-40 (k/n)^16) * analysis by direct cosine sums, repeated 1-3 "
        "times. Non-trivial: n>=8, data not constant and the exact result differs from the input by more than 1e-6.")
DECOYS = True
COUNT = {"quick": 40000, "thorough": 480000}


def strategy(tier):
    hi = 300 if tier == "quick" else 600
    return st.fixed_dictionaries({
        "variant": st.sampled_from(["fd_lon", "cheb_lon"]),
        "n": gen.n1d(2, hi, gen.CHEB_BIG, 3, 4, 5, 9, 17, 33, 65, 129, 257, 8, 16, 64, 128),
        "iv": gen.interval(),
        "mode": st.one_of(st.none(), st.none(), st.integers(0, 600)),
        "data": gen.data(),
        "repeat": st.integers(1, 3),
    })


def corners(tier):
    return [{"variant": v, "n": n, "iv": [1.0, 20.0], "mode": md, "data": {"kind": "rand", "seed": 3, "exp": 0}, "repeat": 2}
            for v in ("fd_lon", "cheb_lon") for n in (2, 3, 4, 5, 8, 9, 16, 17, 33, 64)
            for md in [None, 0, 1, n // 2, n - 2, n - 1] if md is None or md >= 0] + [
        {"variant": ["fd_lon", "cheb_lon"][i % 2], "n": n, "iv": [1.0, 20.0], "mode": md, "data": {"kind": "rand", "seed": n, "exp": 0}, "repeat": 2}
        for i, n in enumerate(gen.CHEB_LONG) for md in (None, 3, n - 4)]


def run(case, ctx):
    s = ctx.server(case["variant"])
    n, (lo, up) = case["n"], case["iv"]
    h = s.call("cheb_new", I=[n], D=[lo, up]).I[0]
    T, A, g = ref.cheb_T(n), ref.cheb_A(n), ref.cheb_filter_factors(n)
    lab = []
    if case["mode"] is not None:
        k = case["mode"] % n
        v = T[:, k].copy()
        lab.append("single mode")
    else:
        v = gen.make(case["data"], n)
    moved = 0.0
    for _ in range(case["repeat"]):
        want = T @ (g * (A @ v))
        o = s.call("cheb_filter", I=[h], A=[v]).A[0]
        m = float(np.max(np.abs(v)))
        close("filter n=%d" % n, o, want, 96 * ref.EPS * (np.sqrt(n) + 4) * m)
        moved = max(moved, float(np.max(np.abs(want - v))) / max(m, 1e-300))
        v = o
    if moved > 1e-6:
        lab.append("changes data")
    return lab


def nontrivial(case, labels):
    return case["n"] >= 8 and "changes data" in labels

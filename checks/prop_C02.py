from hypothesis import strategies as st
import numpy as np
import fw, gen, ref
from fw import check, close, unchanged

TARGETS = [(v, f) for v in ("fd_lon", "cheb_lon") for f in ("opt", "san")]

RULE = ("n in 3..300 (600 thorough), 1/250 of the cases 512..2049, corner cases to 70001, interval of 7 kinds, polynomial of degree <= n-3 given by sparse or dense Chebyshev "
        "coefficients or given as a product vanishing exactly at 1-8 neighbouring nodes or with the same value at both ends and in the middle, half of the former with one or both of the two highest modes added (which must add nothing), plus a second polynomial for linearity; derivative compared at every point with the exact "
        "coefficient recurrence. Non-trivial: degree >= 2 and n >= 6.")
DECOYS = True
COUNT = {"quick": 40000, "thorough": 480000}


def strategy(tier):
    hi = 300 if tier == "quick" else 600
    return st.fixed_dictionaries({
        "variant": st.sampled_from(["fd_lon", "cheb_lon"]),
        "n": gen.n1d(3, hi, gen.CHEB_BIG, 3, 4, 5, 9, 17, 33, 65, 129, 257, 8, 16, 64, 128),
        "iv": gen.interval(),
        "deg": st.one_of(st.just(10 ** 6), st.integers(0, 12), st.integers(0, 600)),
        "kind": st.sampled_from(["dense", "single", "decay", "dense", "single", "decay", "zeros", "zeros"]),
        "seed": gen.seeds,
        "exp": st.sampled_from([0, 0, 0, -20, 20]),
        "repeat": st.integers(1, 3),
        "top": st.sampled_from([0, 0, 0, 1, 2, 3]),
    })


def corners(tier):
    return [{"variant": v, "n": n, "iv": [0.9, 17.0], "deg": d, "kind": k, "seed": n, "exp": 0, "repeat": 2, "top": n % 4}
            for v in ("fd_lon", "cheb_lon") for n in list(range(3, 24)) + [32, 33, 64, 65, 128, 129, 256]
            for d, k in ((10 ** 6, "zeros"), (4, "zeros"), (0, "single"), (1, "single"), (2, "single"), (10 ** 6, "single"), (10 ** 6, "dense"))] + [
        {"variant": ["fd_lon", "cheb_lon"][i % 2], "n": n, "iv": [0.9, 17.0], "deg": 10 ** 6, "kind": k, "seed": n, "exp": 0, "repeat": 2, "top": n % 4}
        for i, n in enumerate(gen.CHEB_LONG) for k in ("decay", "single", "dense")]


def coef(case):
    n = case["n"]
    deg = min(case["deg"], n - 3)
    r = np.random.default_rng(case["seed"])
    c = np.zeros(n)
    if case["kind"] == "single":
        c[deg] = 1.0
    else:
        c[:deg + 1] = r.standard_normal(deg + 1)
        if case["kind"] == "decay":
            c *= np.exp(-0.3 * np.arange(n))
    top = case.get("top", 0)        # the two highest modes, which the operator leaves out
    if top & 1:
        c[n - 1] = r.standard_normal()
    if top & 2:
        c[n - 2] = r.standard_normal()
    return c * 10.0 ** case["exp"], deg


def zeros(case):
    """Polynomial that vanishes exactly at a run of nodes, its derivative in x, and the bound on its size."""
    n = case["n"]
    r = np.random.default_rng(case["seed"])
    x = ref.cheb_x(n)
    k = int(min(r.integers(1, 9), n - 3, max(case["deg"], 0)))
    if k < 1:
        k = min(1, n - 3)
    i0 = int(r.integers(0, n - k + 1))
    z = x[i0:i0 + k]
    at = 0.0
    if case["seed"] % 5 in (1, 2):      # the same value exactly at both ends and in the middle
        z = x[sorted({0, (n - 1) // 2, n // 2, n - 1})[:n - 3]]
        k = len(z)
        at = float(r.choice([0.0, 1.0, -0.75]))
    d = int(min(r.integers(0, 6), n - 3 - k))
    C = np.polynomial.chebyshev
    b = r.standard_normal(d + 1)
    v, dv = C.chebval(x, b), (C.chebval(x, C.chebder(b)) if d else np.zeros(n))
    for zi in z:
        v, dv = v * (x - zi), dv * (x - zi) + v
    m = float(np.max(np.abs(v))) or 1.0
    sc = 10.0 ** case["exp"] / m
    return v * sc + at * 10.0 ** case["exp"], dv * sc, 10.0 ** case["exp"] * (1 + abs(at)), k, d + k


def run(case, ctx):
    s = ctx.server(case["variant"])
    n, (lo, up) = case["n"], case["iv"]
    jac = (up - lo) / 2
    h = s.call("cheb_new", I=[n], D=[lo, up]).I[0]
    if case["kind"] == "zeros" and n > 3:
        v, want, m, k, deg = zeros(case)
        want = want / jac
    else:
        c, deg = coef(case)
        T = ref.cheb_T(n)
        v = T @ c
        low = c.copy()
        low[max(n - 2, 0):] = 0
        want = T @ ref.cheb_dcoef(low) / jac
        m = float(np.max(np.abs(v))) + float(np.sum(np.abs(c))) * 0.1
    # rounding of the samples (and of the transform) amplified by differentiation, growing towards the ends
    tol = 24 * ref.EPS * n ** 2.5 * m / jac
    for _ in range(case["repeat"]):
        o, back = s.call("cheb_der", I=[h], A=[v, np.full(n, np.nan)]).A
        unchanged("input of der", v, back)
        close("derivative of a degree-%d polynomial, n=%d" % (deg, n), o, want, tol)
    lab = ["deg=n-3"] if deg == n - 3 else []
    if case.get("top") and case["kind"] != "zeros":
        lab.append("top modes")
    return lab + [case["kind"]]


def nontrivial(case, labels):
    return case["n"] >= 6 and min(case["deg"], case["n"] - 3) >= 2

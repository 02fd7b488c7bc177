from hypothesis import strategies as st
import numpy as np
import fw, gen, ref
from fw import check, close, unchanged
from gridbase import *

TARGETS = [(v, f) for v in ("cheb_lon", "cheb_phi") for f in ("opt", "san")]
RULE = ("Chebyshev grids nx 3..40, nl 1..8, both layouts, any radial range; fields whose shells carry independent band-limited data, polynomial radial "
        "profiles per mode, or a single mode whose amplitude is a positive polynomial (coefficients known in closed form); output pre-filled with garbage, "
        "1-3 calls, 1-4 threads. Every coefficient against the dense Chebyshev analysis of sqrt(sum_m |f_lm|^2). "
        "Corner cases with more points than fit in 16 bits. Non-trivial: at least two l with content and nx>=5.")
DECOYS = True
COUNT = {"quick": 15000, "thorough": 240000}


@st.composite
def strat(draw, tier):
    c = draw(gridspec(["cheb_lon", "cheb_phi"], 3, 24 if tier == "quick" else 40, 6 if tier == "quick" else 10))
    c["kind"] = draw(st.sampled_from(["shells", "profiles", "closed"]))
    c["seed"] = draw(gen.seeds)
    c["exp"] = draw(st.sampled_from([0, 0, -40, 40]))
    c["empty"] = draw(st.lists(st.integers(0, 10), max_size=3))
    c["calls"] = draw(st.integers(1, 3))
    c["threads"] = draw(st.sampled_from([1, 1, 2, 4]))
    return c


def strategy(tier):
    return strat(tier)


def corners(tier):
    out = []
    for c in grid_corners((3, 5, 8, 13)):
        if ref.is_cheb(c["variant"]):
            for k in ("shells", "profiles", "closed"):
                out.append(dict(c, kind=k, seed=7, exp=0, empty=[], calls=2, threads=2))
    for c in huge(tier):
        if ref.is_cheb(c["variant"]):
            out.append(dict(c, kind="shells", seed=3, exp=0, empty=[], calls=1, threads=2))
    return out


def run(case, ctx):
    s, h, g = open_grid(case, ctx)
    s.call("omp", I=[case["threads"], 1])
    nx, nl, sp = case["nx"], case["res"][0], g.sp
    r = np.random.default_rng(case["seed"])
    u = ref.cheb_x(nx)
    closed = None
    if case["kind"] == "shells":
        C = [ref.coefs(sp, [], case["seed"] % 9973 + 17 * i, 1.0) for i in range(nx)]
    elif case["kind"] == "profiles":
        d = int(r.integers(0, nx))
        V = np.polynomial.chebyshev.chebvander(u, d)
        B = [ref.coefs(sp, [], case["seed"] % 9973 + k, 1.0) for k in range(d + 1)]
        C = [sum(V[i, k] * B[k] for k in range(d + 1)) for i in range(nx)]
    else:
        # one mode per l, amplitude 2 + (something of modulus < 1): the square root is the polynomial itself
        d = int(r.integers(0, nx))
        closed = np.zeros((nx, nl))
        C = np.zeros((nx, len(sp.lm)), complex)
        for l in range(nl + 1):
            b = r.uniform(-1, 1, d + 1) / (d + 1)
            b[0] += 2.0
            m = int(r.integers(0, min(l, sp.nm) + 1))
            z = np.exp(1j * r.uniform(0, 6)) if m else 1.0
            C[:, sp.ix[(l, m)]] = np.polynomial.chebyshev.chebval(u, b) * z
            if l < nl:
                closed[:d + 1, l] = b * (np.sqrt(2.0) if m else 1.0)
        C = list(C)
    mask = ~np.isin(sp.l, case["empty"])
    ex = 10.0 ** case["exp"]
    C = [c * mask * ex for c in C]
    if closed is None and case["seed"] % 4 == 1:        # degrees that are empty outside some shells, with further gaps
        for l in range(nl + 1):
            i0 = int(r.integers(1, max(2, nx - 1)))
            i1 = i0 + int(r.integers(0, max(1, nx // 2)))
            gap = int(r.integers(0, 3))
            for i in range(nx):
                if i < i0 or i > i1 or i == nx - 1 or (gap and i in (nx // 2, (nx - 1) // 2)):
                    C[i] = C[i] * (sp.l != l)
    v = g.flat(np.stack([sp.synth(c) for c in C]))
    amp = np.sqrt(np.stack([sp.power(c)[:nl] for c in C]))
    want = ref.cheb_A(nx) @ amp
    tol = 2e-13 * (nl + 2) * (np.max(np.sqrt([2 * np.sum(np.abs(c) ** 2) for c in C])) + 1e-300) * np.log(nx + 3)
    for k in range(case["calls"]):
        o, back = s.call("grid_op", I=[h, 7], A=[v, r.standard_normal(nx * nl) * 1e3]).A
        unchanged("field", v, back)
        o = o.reshape(nx, nl)
        close("mode coefficients (call %d)" % k, o, want, tol)
    if closed is not None:
        for l in case["empty"]:
            if l < nl:
                closed[:, l] = 0
        close("mode coefficients of polynomial amplitudes", o, closed * ex, tol)
    have = len(set(sp.l[(sp.l < nl) & mask].tolist()))
    return [case["kind"]] + (["two l"] if have >= 2 and nx >= 5 else [])


def nontrivial(case, labels):
    return "two l" in labels

from hypothesis import strategies as st
import numpy as np
import fw, gen, ref
from fw import check, close, unchanged

TARGETS = [(v, f) for v in ("fd_lon", "cheb_lon") for f in ("opt", "san")]

RULE = ("n in 9..600 and, in 1/250 of the cases, 512..8193, interval of 7 kinds, samples of 9 kinds including mixed magnitudes over 28 decades and isolated "
        "1e120 spikes (locality), and degree<=7 polynomials; each output compared with exact rational (Lagrange) weights, "
        "tolerance 64 eps * sum|w v| per point. A quarter of the cases is repeated with 1-3 samples that are not finite, which may reach their own stencils only. Corner cases with more points than fit in 16 bits. Non-trivial: data not constant.")
DECOYS = True
COUNT = {"quick": 40000, "thorough": 480000}
NMIN, DEG = 9, 7
OP = "fd_filter"


def strategy(tier):
    return st.fixed_dictionaries({
        "variant": st.sampled_from(["fd_lon", "cheb_lon"]),
        "n": gen.n1d(NMIN, 600, gen.FD_BIG, *range(NMIN, NMIN + 8)),
        "iv": gen.interval(),
        "poly": st.one_of(st.none(), st.none(), st.integers(0, DEG)),
        "data": gen.data(),
        "repeat": st.integers(1, 2),
        "bad": gen.bad(),
    })


def corners(tier):
    out = []
    for n in list(range(NMIN, NMIN + 12)) + [32, 33, 100]:
        out.append({"variant": "fd_lon", "n": n, "iv": [-1.0, 2.0], "poly": None,
                    "data": {"kind": "mixed", "seed": n, "exp": 0}, "repeat": 2})
        for d in range(DEG + 1):
            out.append({"variant": "fd_lon", "n": n, "iv": [0.5, 3.0], "poly": d,
                        "data": {"kind": "const", "seed": n, "exp": 0}, "repeat": 1})
    for n in (NMIN, NMIN + 1, NMIN + 5, 40):
        for j in range(n):
            out.append({"variant": "cheb_lon", "n": n, "iv": [-2.0, 9.0], "poly": None,
                        "data": {"kind": "sparse", "seed": 1, "exp": 0, "at": [j]}, "repeat": 1})
    # more points than fit in 16 bits
    for n, k, i in [(70001, "rand", 0), (131083, "mixed", 1)][:1 if tier == "quick" else 2]:
        out.append({"variant": "fd_lon", "n": n, "iv": [-1.0, 2.0], "poly": None, "data": {"kind": k, "seed": n, "exp": 0}, "repeat": 2})
        out.append({"variant": "cheb_lon", "n": n, "iv": [-1.0, 2.0], "poly": None,
                    "data": {"kind": "sparse", "seed": 1, "exp": 0, "at": [0, 5, 32767, 32768, 65535, 65536, 65540, n - 6, n - 1]}, "repeat": 1})
    return out


def samples(case, s, h):
    n = case["n"]
    if case["poly"] is not None:
        r = np.random.default_rng(case["data"]["seed"])
        u = np.linspace(-1, 1, n)
        return np.polyval(r.standard_normal(case["poly"] + 1), u)
    return gen.make(case["data"], n)


def setup(case, ctx):
    s = ctx.server(case["variant"])
    n, (lo, up) = case["n"], case["iv"]
    h = s.call("fd_new", I=[n], D=[lo, up]).I[0]
    r = s.call("fd_info", I=[h])
    check(r.I[0] == n and r.D[0] == lo and r.D[1] == up, "accessors n/lower/upper differ from the arguments")
    dx = (up - lo) / (n - 1.0)
    close("grid points", r.A[0], lo + dx * np.arange(n), 8 * ref.EPS * max(abs(lo), abs(up), abs(up - lo)))
    return s, h, n, dx, samples(case, s, h)


def nontrivial(case, labels):
    return (case["poly"] or 0) >= 1 or (case["poly"] is None and case["data"]["kind"] != "const")


def run(case, ctx):
    s, h, n, dx, v = setup(case, ctx)
    moved = False
    v0 = v
    for _ in range(case["repeat"]):
        want = v.copy()
        tol = np.zeros(n)
        for j, w in zip(range(-4, 5), ref.KO):
            want[4:n - 4] -= w / 256.0 * v[4 + j:n - 4 + j]
            tol[4:n - 4] += abs(w) / 256.0 * np.abs(v[4 + j:n - 4 + j])
        tol = 64 * ref.EPS * (tol + np.abs(v))
        tol[:4] = 0
        tol[n - 4:] = 0
        o = s.call(OP, I=[h], A=[v]).A[0]
        close("filter n=%d" % n, o, want, tol)
        if _ == 0 and case.get("bad"):      # no other sample matters, whatever it is
            w, free = gen.spoil(v0, case["bad"], 4, 4, 0)
            ow = s.call(OP, I=[h], A=[w]).A[0]
            close("filter n=%d away from samples that are not finite" % n, ow[free], want[free], tol[free])
        moved = moved or bool(np.any(np.abs(o - v) > 1e-6 * np.max(np.abs(v))))
        v = o
    return ["moved" if moved else "fixed point", "small n" if n < 20 else "large n"]

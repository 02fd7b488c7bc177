from hypothesis import strategies as st
import numpy as np
import fw, gen, ref
from fw import check, close, unchanged, VARIANTS
from gridbase import *

RULE = ("grids nx 2..24, nl 1..5, 4 variants, 1-4 threads; arbitrary fields (random, sparse, mixed magnitudes, constant) and dt over 12 decades and negative; "
        "both monitors against numpy definitions, exact zero for exactly consistent updates and constant fields, no finite value for states with NaN or infinities, inputs bitwise unchanged. "
        "Corner cases with more points than fit in 16 bits. Non-trivial: all three dimensions >=2 and data not constant.")
DECOYS = True
COUNT = {"quick": 16000, "thorough": 300000}


@st.composite
def strat(draw, tier):
    c = draw(gridspec(VARIANTS, 2, 24, 5))
    c["data"] = [draw(gen.data(draw(st.sampled_from([False, False, True])))) for _ in range(3)]
    c["dt"] = draw(st.one_of(gen.fl(1e-9, 1e3), st.sampled_from([1.0, 0.5, 2.0 ** -10, -0.01, -3.0])))
    c["threads"] = draw(st.integers(1, 4))
    c["consistent"] = draw(st.booleans())
    c["seed"] = draw(gen.seeds)
    c["bad"] = draw(st.sampled_from([0] * 7 + [1, 2, 3]))
    return c


def strategy(tier):
    return strat(tier)


def corners(tier):
    d = {"kind": "rand", "seed": 1, "exp": 0}
    return [dict(c, data=[d, dict(d, seed=2), dict(d, seed=3)], dt=0.01, threads=1 + i % 4, consistent=i % 2 == 0, seed=i)
            for i, c in enumerate(grid_corners((2, 3, 9, 12)) + huge(tier))]


def run(case, ctx):
    s, h, g = open_grid(case, ctx)
    s.call("omp", I=[case["threads"], 1])
    N = g.N
    dt = case["dt"]
    fn, fnp, p = (gen.make(d, N) for d in case["data"])
    fn, fnp, p = (x if np.max(np.abs(x)) < 1e110 else x * 1e-120 for x in (fn, fnp, p))      # squares within the number range
    dt = dt if dt < 0 or max(np.max(np.abs(x)) for x in (fn, fnp)) < 1e100 else max(dt, 1e-3)
    o = s.call("grid_res", I=[h], D=[dt], A=[fn, fnp, p])
    for nm_, a, b in zip(("f_n", "f_np1", "p"), (fn, fnp, p), o.A):
        unchanged(nm_, a, b)
    t = p - (fnp - fn) / dt
    want = float(np.sqrt(np.mean(t ** 2)))
    mag = float(np.sqrt(np.mean((np.abs(p) + (np.abs(fnp) + np.abs(fn)) / abs(dt)) ** 2)))
    close("residual", o.D[0], want, 1e-12 * want + 16 * ref.EPS * mag)
    if case["consistent"]:
        r = np.random.default_rng(case["seed"])
        a = r.integers(-1000, 1000, N).astype(float)
        q = r.integers(-1000, 1000, N).astype(float)
        d2 = 2.0 ** int(r.integers(-12, 3))
        z = s.call("grid_res", I=[h], D=[d2], A=[a, a + d2 * q, q]).D[0]
        check(z == 0.0, "residual of an exactly consistent update is %r" % z)
        j = int(r.integers(0, N))
        q2 = q.copy()
        q2[j] += 1.0
        z = s.call("grid_res", I=[h], D=[d2], A=[a, a + d2 * q, q2]).D[0]
        close("residual with one inconsistent point", z, (1.0 / N) ** 0.5, 1e-12)
    o = s.call("grid_tv", I=[h], A=[fn])
    unchanged("field", fn, o.A[0])
    f = g.unflat(fn)
    if min(f.shape) >= 2:
        d = [f[1:, :-1, :-1] - f[:-1, :-1, :-1], f[:-1, 1:, :-1] - f[:-1, :-1, :-1], f[:-1, :-1, 1:] - f[:-1, :-1, :-1]]
        want = float(np.sum(np.sqrt(d[0] ** 2 + d[1] ** 2 + d[2] ** 2)) / N)
    else:
        want = 0.0
    close("total variation", o.D[0], want, 1e-12 * want + 1e-300)
    bad = case.get("bad", 0)
    if bad:                 # a run that has failed must not look healthy
        r = np.random.default_rng(case["seed"] + 1)
        x = [np.array(y) for y in (fn, fnp, p)]
        for y in (x if bad == 3 else [x[int(r.integers(0, 3))]]):
            y[int(r.integers(0, N))] = [np.nan, np.inf, -np.inf][int(r.integers(0, 3)) if bad > 1 else 0]
        z = s.call("grid_res", I=[h], D=[dt], A=x).D[0]
        check(not np.isfinite(z), "residual of a state with NaN or infinite values is %r" % z)
        y = np.array(fn)
        i = [int(r.integers(0, max(k - 1, 1))) for k in f.shape]
        j = int(np.flatnonzero(g.flat(np.arange(N, dtype=float).reshape(f.shape)) == np.ravel_multi_index(i, f.shape))[0])
        y[j] = np.nan
        z = s.call("grid_tv", I=[h], A=[y]).D[0]
        check(min(f.shape) < 2 or not np.isfinite(z), "total variation of a state with NaN is %r" % z)
    z = s.call("grid_tv", I=[h], A=[np.full(N, 0.75)]).D[0]
    check(z == 0.0, "total variation of a constant field is %r" % z)
    return ["threads=%d" % case["threads"]] + (["full dims"] if min(f.shape) >= 2 else [])


def nontrivial(case, labels):
    return "full dims" in labels and case["data"][0]["kind"] != "const"

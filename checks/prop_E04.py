from hypothesis import strategies as st
import numpy as np
import fw, gen, ref
from fw import check, close, unchanged, VARIANTS
from kerrbase import *

from prop_E03 import stable_dt

RULE = ("grids/masses/spins as for E03, 1-4 steps of noisy or smooth states under eight relations: azimuthal rotation by grid steps, equatorial "
        "reflection, azimuth reflection with spin reversal, scaling (1e-30..1e20) and superposition for the linear equation, shift by a constant for the free field, sign change for even coupling and potential; "
        "plus axisymmetry preservation. Evolution of the transformed state vs transformed evolution. Corner cases with more points than fit in 16 bits. Non-trivial: the transformation changes "
        "the state (or, for axisymmetry, the spin is nonzero).")
DECOYS = True
COUNT = {"quick": 4800, "thorough": 120000}
SAN_FRACTION = 0.3


@st.composite
def strat(draw, tier):
    c = draw(kgrid(10, 16 if tier == "quick" else 24, 4 if tier == "quick" else 6, outside=True, wide=True))
    c["q"] = draw(coupling())
    c["sym"] = draw(st.sampled_from(["rot", "rot", "eq", "spin", "scale", "scale", "add", "shift", "sign", "axi"]))
    c["arg"] = draw(st.integers(1, 12))
    c["noise"] = draw(st.sampled_from([0.0, 0.1, 1.0]))
    c["amp"] = [draw(st.sampled_from([0.2, 0.05])), draw(st.sampled_from([0.3, 0.01]))]
    c["seed"] = draw(gen.seeds)
    c["cfl"] = draw(gen.fl(0.05, 1.0))
    c["steps"] = draw(st.integers(1, 4))
    return c


def strategy(tier):
    return strat(tier)


def corners(tier):
    out = []
    for i, c in enumerate(corner_states()):
        c = {k: c[k] for k in ("variant", "res", "nx", "rad", "M", "a", "q")}
        for sym in ("rot", "eq", "spin", "scale", "add", "shift", "sign", "axi"):
            out.append(dict(c, sym=sym, arg=1 + i % 5, noise=0.1, amp=[0.2, 0.3], seed=i, cfl=0.5, steps=2))
    for i, c in enumerate(huge_states(tier)):
        c = {k: c[k] for k in ("variant", "res", "nx", "rad", "M", "a", "q")}
        for sym in ("rot", "eq", "spin"):
            out.append(dict(c, sym=sym, arg=7, noise=0.1, amp=[0.2, 0.3], seed=i, cfl=0.5, steps=1))
    return out


def run(case, ctx):
    s, h, g = open_grid(case, ctx)
    q = dict(case["q"])
    sym = case["sym"]
    if sym == "shift":
        q.update(V2=0.0)
    if sym in ("scale", "add", "shift"):
        q.update(km1=0.0, k1=0.0, k2=0.0, V3=0.0, V4=0.0)
    if sym == "sign":
        q.update(km1=0.0, k1=0.0, V3=0.0)
    q = fix_k(q, 0.6)
    dt = stable_dt(g, case["cfl"])
    N = g.N
    r = np.random.default_rng(case["seed"])
    st0 = []
    for k, A in enumerate(case["amp"]):
        x = State(g, case["seed"] + k, 4, 3, A).f
        x = x + case["noise"] * A * r.uniform(-1, 1, x.shape)
        if sym == "axi":
            x = np.repeat(x[:, :, :1], g.nphi, axis=2)
        st0.append(x)

    def evolve(x, a):
        P = new_params(s, ctx, grid_params(dict(case, a=a), q, dt=float(dt)))
        e = s.call("eom_new", I=[h, P]).I[0]
        F = [s.call("field_new", I=[N], D=[0.0], S=[n]).I[0] for n in ("f", "p")]
        for i in (0, 1):
            s.call("field_set", I=[F[i], 0], A=[g.flat(x[i])])
        for _ in range(case["steps"]):
            s.call("eom_step", I=[e, h, F[0], F[1]])
            for i in (0, 1):
                s.call("field_shift", I=[F[i]])
        out = [g.unflat(s.call("field_get", I=[F[i]]).A[0]) for i in (0, 1)]
        rho = g.unflat(s.call("eom_rho", I=[e, h], A=[g.flat(out[0]), g.flat(out[1]), np.zeros(N)]).A[0])
        return out + [rho]

    base = evolve(st0, case["a"])
    sc = max(max(float(np.max(np.abs(b))) for b in base[:2]), max(float(np.max(np.abs(b))) for b in st0))
    if not np.isfinite(sc) or sc > 1e3 or max(np.max(np.abs(base[0])), np.max(np.abs(st0[0]))) > 0.55:
        return ["left domain"]
    a2, rs = case["a"], 1.0
    if sym == "rot":
        T = lambda x: np.roll(x, case["arg"] % g.nphi, axis=2)
    elif sym == "eq":
        T = lambda x: x[:, ::-1, :]
    elif sym == "spin":
        T = lambda x: x[:, :, (-np.arange(g.nphi)) % g.nphi]
        a2 = -a2
    elif sym == "scale":
        fac = [2.0, 2.0 ** -40, -3.0, 1e-3, 1.7, -2.0 ** -90, 1e20, 1e-8][case["arg"] % 8]
        T = lambda x: fac * x
        rs = fac
    elif sym == "sign":
        T = lambda x: -x
        rs = -1.0
    elif sym == "add":
        y0 = [np.roll(x, case["arg"] % g.nphi, axis=2) * w + (w - 1) * 0.3 * x[:, ::-1, :] for x, w in zip(st0, (0.7, -1.3))]
        other = evolve(y0, a2)
        both = evolve([x + y for x, y in zip(st0, y0)], a2)
        for i, nme in enumerate("fp"):
            m = max(sc, float(np.max(np.abs(other[i]))), float(np.max(np.abs(both[i]))))
            close("%s of a superposition" % nme, both[i], base[i] + other[i], 1e-9 * m)
        return ["add", "acts"]
    elif sym == "shift":
        c0 = [0.25, -0.5, 3.0, -40.0][case["arg"] % 4]
        moved = evolve([st0[0] + c0, st0[1]], a2)
        for nme, b, m, c in zip(("f", "p", "rho"), base, moved, (c0, 0.0, 0.0)):
            close("%s after shift" % nme, m, b + c, 1e-9 * (sc + abs(c0)) + (1e-8 * (float(np.max(np.abs(b))) + (sc + abs(c0)) ** 2) if nme == "rho" else 0))
        return ["shift", "acts"]
    else:
        for nme, b in zip(("f", "p", "rho"), base):
            close("axisymmetry of " + nme, b, np.repeat(b[:, :, :1], g.nphi, axis=2), 1e-9 * max(sc, float(np.max(np.abs(b)))))
        return ["axi", "acts"] if case["a"] else ["axi"]
    moved = evolve([T(x) for x in st0], a2)
    for nme, b, m in zip(("f", "p", "rho"), base, moved):
        if nme == "rho":
            want = T(b) if rs == 1.0 else rs * rs * b
            if sym == "sign":
                want = b
            rsc = float(np.max(np.abs(want)))
            close("rho after %s" % sym, m, want, 1e-8 * rsc + 1e-9 * (sc * rs) ** 2)
        else:
            close("%s after %s" % (nme, sym), m, T(b), 1e-9 * sc * abs(rs))
    acts = any(float(np.max(np.abs(T(x) - x))) > 1e-3 * sc for x in st0)
    return [sym] + (["acts"] if acts else [])


def nontrivial(case, labels):
    return "acts" in labels

from hypothesis import strategies as st
import numpy as np
import fw, gen, ref
from fw import check, close, unchanged, VARIANTS
from gridbase import *

RULE = ("grids nx 9..24 (40 thorough), nl 1..5 (8), 4 variants, radial ranges inside L incl. R=L; fields of three kinds: independent polynomial in "
        "R on every ray (degree<=6 finite differences, <=nx-3 Chebyshev), an independent band-limited field on every shell with amplitudes "
        "over 12 decades, and products; all six operators against analytic derivatives, tolerance per ray/shell, a quarter of the cases again with values that are not finite on up to three rays or shells, which must leave the others alone. "
        "Corner cases with more points than fit in 16 bits. Non-trivial: degree>=2 and (shells or products) at least one l>=1 mode.")
DECOYS = True
COUNT = {"quick": 12000, "thorough": 180000}


@st.composite
def strat(draw, tier):
    c = draw(gridspec(VARIANTS, 9, 24 if tier == "quick" else 40, 5 if tier == "quick" else 8))
    c["kind"] = draw(st.sampled_from(["rays", "shells", "product"]))
    c["deg"] = draw(st.one_of(st.just(99), st.integers(0, 8)))
    c["seed"] = draw(gen.seeds)
    c["ladder"] = draw(st.booleans())
    c["threads"] = draw(st.sampled_from([1, 1, 1, 3]))
    c["bad"] = draw(gen.bad())
    return c


def strategy(tier):
    return strat(tier)


def corners(tier):
    out = []
    for c in grid_corners():
        for k in ("rays", "shells", "product"):
            for lad in (False, True):
                out.append(dict(c, kind=k, deg=99, seed=4, ladder=lad, threads=1))
    for i, c in enumerate(huge(tier)):
        out.append(dict(c, kind="product", deg=5, seed=i, ladder=True, threads=1))
    return out


def tcheb(k, u):
    return np.polynomial.chebyshev.chebvander(u, k)


def run(case, ctx):
    s, h, g = open_grid(case, ctx)
    if case["threads"] > 1:
        s.call("omp", I=[case["threads"], 1])
    nx, (nl, nm, nlat, nphi) = case["nx"], case["res"]
    cl, Rmin, Rmax = case["rad"]
    sp = g.sp
    r = np.random.default_rng(case["seed"])
    dmax = nx - 3 if g.cheb else 6
    deg = min(case["deg"], dmax)
    H = (Rmax - Rmin) / 2
    u = ref.cheb_x(nx) if g.cheb else np.linspace(-1, 1, nx)

    def op(k, f):
        v = g.flat(f)
        o, back = s.call("grid_op", I=[h, k], A=[v, np.full(g.N, np.nan)]).A
        unchanged("input of operator %d" % k, v, back)
        return g.unflat(o)

    def both(name, k, f, want, tol):
        """The operator on f, and on f with values that are not finite on a few rays (shells), on the others."""
        close(name, op(k, f), want, tol)
        if case.get("bad"):
            w, free = f.copy(), np.ones_like(f, bool)
            rr = np.random.default_rng(case["seed"] + k)
            for x, b in case["bad"]:
                i, j, m = min(int(x * nx), nx - 1), int(rr.integers(0, nlat)), int(rr.integers(0, nphi))
                w[i, j, m] = gen.BAD[b]
                if k in (3, 4, 5):
                    free[:, j, m] = False
                else:
                    free[i] = False
            v = g.flat(w)
            o = g.unflat(s.call("grid_op", I=[h, k], A=[v, np.zeros(g.N)]).A[0])
            close(name + (" on rays" if k in (3, 4, 5) else " on shells") + " without values that are not finite", o[free], want[free], np.broadcast_to(tol, want.shape)[free])
    # radial part: Chebyshev-polynomial coefficients per ray
    V = np.polynomial.chebyshev.chebvander(u, deg)
    if case["kind"] == "rays":
        a = r.standard_normal((deg + 1, nlat, nphi)) * 10.0 ** r.integers(-5, 6, (1, nlat, nphi))
        sub = case["seed"] // 3 % 8
        if sub == 1:                    # some rays are empty, some repeat their neighbour
            m = r.random((nlat, nphi))
            a[:, m < 0.4] = 0
            for i in range(1, nphi):
                a[:, m[:, i] > 0.8, i] = a[:, m[:, i] > 0.8, i - 1]
        elif sub == 2 and deg >= 3:     # rays that agree at both ends and in the middle
            b = r.standard_normal((nlat, nphi)) * (r.random((nlat, nphi)) < 0.7) * np.max(np.abs(a[:, 0, 0]))
            b[0, 0] = 0
            a[:] = a[:, :1, :1]
            a[1] += b
            a[3] -= b
        elif sub == 3:                  # one ray only
            i, j = int(r.integers(0, nlat)), int(r.integers(0, nphi))
            b = a[:, i, j].copy()
            a[:] = 0
            a[:, i, j] = b
    else:
        L = min(nl, nm) if case["ladder"] else nl
        cs = [ref.coefs(sp, [], case["seed"] % 1000 + k, 1.0, L) for k in range(deg + 1)]
        a = np.stack([sp.synth(c) for c in cs])
    lab = [case["kind"], "l>=1" if case["kind"] != "rays" and nl >= 1 else "-"]
    fac = (1 - g.R / cl)
    if case["kind"] in ("rays", "product"):
        f = np.einsum("xk,kij->xij", V, a)
        if case["kind"] == "rays" and case["seed"] // 3 % 8 == 2 and deg >= 3:
            for i in (0, (nx - 1) // 2, nx - 1) if nx % 2 else (0, nx - 1):
                f[i] = f[i, 0, 0]
        C = np.polynomial.chebyshev
        d1 = C.chebder(a, 1, axis=0) / H if deg >= 1 else np.zeros((1,) + a.shape[1:])
        d2 = C.chebder(a, 2, axis=0) / H ** 2 if deg >= 2 else np.zeros((1,) + a.shape[1:])
        f1 = np.einsum("xk,kij->xij", C.chebvander(u, d1.shape[0] - 1), d1)
        f2 = np.einsum("xk,kij->xij", C.chebvander(u, d2.shape[0] - 1), d2)
        A = np.sum(np.abs(a), axis=0)[None]
        if g.cheb:
            t1 = 40 * ref.EPS * nx ** 2.5 / H
            t2 = 40 * ref.EPS * nx ** 4.5 / H ** 2
        else:
            dx = (Rmax - Rmin) / (nx - 1)
            t1 = 64 * ref.EPS * 40 / dx
            t2 = 64 * ref.EPS * 250 / dx ** 2
        F = fac[:, None, None]
        Fa = np.abs(F) + 4 * ref.EPS
        both("d/dR", 3, f, f1, t1 * A * np.ones_like(f))
        both("d/dr", 4, f, F ** 2 * f1, t1 * A * Fa ** 2 + 1e-14 * np.abs(f1) * Fa)
        both("d2/dr2", 5, f, F ** 4 * f2 - 2 / cl * F ** 3 * f1,
              t2 * A * Fa ** 4 + t1 * 2 / cl * Fa ** 3 * A + 1e-14 * (np.abs(f2) * Fa ** 3 + np.abs(f1) * Fa ** 2 / cl))
    if case["kind"] in ("shells", "product"):
        if case["kind"] == "shells":
            amp = 10.0 ** r.integers(-6, 7, nx)
            if case["seed"] // 3 % 4 == 1:      # empty outside some shells
                i0 = int(r.integers(0, nx))
                amp[(np.arange(nx) < i0) | (np.arange(nx) > i0 + int(r.integers(0, nx)))] = 0
            elif case["seed"] // 3 % 4 == 2:    # some shells are empty
                amp[r.random(nx) < 0.4] = 0
            Cx = [ref.coefs(sp, [], case["seed"] % 997 + 31 * i, amp[i], L) for i in range(nx)]
        else:
            Cx = [sum(V[i, k] * cs[k] for k in range(deg + 1)) for i in range(nx)]
        f = np.stack([sp.synth(c) for c in Cx])
        A = np.array([np.sum(np.abs(c) * sp.fac * np.max(np.abs(sp.P), axis=1)) for c in Cx])[:, None, None] + 1e-300
        one = np.ones_like(f)
        n = nl + 2.0
        fp = np.stack([sp.synth(c, "ph") for c in Cx])
        both("d/dphi", 0, f, fp, 1e-13 * n * A * one)
        both("spherical Laplacian", 1, f, np.stack([sp.lap(c) for c in Cx]), 1e-13 * n * n * A * one)
        if case["ladder"]:
            ft = np.stack([sp.synth(c, "th") for c in Cx])
            gg = ft ** 2 + fp ** 2 / (sp.st ** 2)[None, :, None]
            both("squared angular gradient", 2, f, gg, 2e-11 * (n * A) ** 2 * (1 + 0.02 / np.min(sp.st)) * one)
            lab.append("gradient")
    if deg >= 2:
        lab.append("deg>=2")
    if Rmax == cl:
        lab.append("reaches infinity")
    return lab


def nontrivial(case, labels):
    return "deg>=2" in labels and (case["kind"] == "rays" or "l>=1" in labels)

from hypothesis import strategies as st
import numpy as np
import fw, gen, ref
from fw import check, close, unchanged, VARIANTS
from kerrbase import *

RULE = ("mass 0.1..5 (1/8: 0, 1e-3..1e3), spin 0, +-M, 0.9999M or any |a|<=M, grid from inside the horizon / the horizon / outside up to R=L or short of it, nx 10..20 (28) (3/32 of the cases: nx to 130, angular grids to 40x72 or l to 18), "
        "4 variants, couplings of 9 kinds (any subset of the terms, constants other than one); states (amplitudes 60 to 1e-40 and zero, fields up to 100 and near the pole of the kinetic term, fields and momenta with an exact zero at a grid point) = random polynomial in R x harmonics l<=nm; p_k compared with the box operator of the "
        "numerically inverted metric (complex-step derivatives) at every point; a decoy call with another state comes in between. "
        "Corner cases with more points than fit in 16 bits. Non-trivial: field and momentum both depend on R and have l>=1.")
DECOYS = True
COUNT = {"quick": 9600, "thorough": 180000}


def strategy(tier):
    return kgrid(10, 20 if tier == "quick" else 28, 4 if tier == "quick" else 7, wide=True).flatmap(state).flatmap(
        lambda c: st.sampled_from([0, 0, 1, 2]).map(lambda k: dict(c, decoy=k)))


def corners(tier):
    return [dict(c, decoy=i % 3) for i, c in enumerate(corner_states() + huge_states(tier))]


def rhs(g, M, a, q, f, p):
    """p_k and a bound on the rounding of a direct evaluation."""
    r = radii(g)
    fin = np.isfinite(r)
    ex = ref.EPS
    k, kp, vp = ref.kfun(q, f.f), ref.kprime(q, f.f), ref.vprime(q, f.f)
    ka = abs(q["k0"]) + abs(q["km1"]) / np.abs(1 + f.f) + abs(q["k1"] * f.f) + abs(q["k2"]) / 2 * f.f ** 2
    cond = ka / np.abs(k)
    kpa = abs(q["km1"]) / (1 + f.f) ** 2 + abs(q["k1"]) + abs(q["k2"] * f.f)
    vpa = abs(q["V2"] * f.f) + abs(q["V3"] / 2 * f.f ** 2) + abs(q["V4"] / 6 * f.f ** 3)
    out = np.zeros_like(f.f)
    tol = np.zeros_like(f.f)
    # at infinity: -psi_tt + (k'/2k)(-p^2) - V'/k = 0
    i = ~fin
    out[i] = -0.5 * kp[i] / k[i] * p.f[i] ** 2 - vp[i] / k[i]
    tol[i] = 1e-10 * (0.5 * kpa[i] / np.abs(k[i]) * cond[i] * (p.f[i] ** 2 + f.e_r[i] + 1e-3 * p.A ** 2) + vpa[i] / np.abs(k[i]) * cond[i]
                      + 1e-3 * (f.A + p.A))
    s = lambda A: A[fin]
    K = Kerr(M, a, r[fin][:, None], g.sp.th[None, :])
    G = K.gi[:, :, None]           # broadcast over phi
    B = K.first[:, :, None]
    box = (G[..., 1, 1] * s(f.rr) + 2 * G[..., 0, 1] * s(p.r) + 2 * G[..., 0, 3] * s(p.ph) + 2 * G[..., 1, 3] * s(f.rph)
           + G[..., 2, 2] * s(f.thth) + G[..., 3, 3] * s(f.phph)
           + B[..., 0] * s(p.f) + B[..., 1] * s(f.r) + B[..., 2] * s(f.th) + B[..., 3] * s(f.ph)
           + 2 * G[..., 0, 2] * s(p.th) + 2 * G[..., 1, 2] * s(f.rth))
    d = [s(p.f), s(f.r), s(f.th), s(f.ph)]
    e = [s(p.e_f), s(f.e_r), s(f.e_th), s(f.e_ph)]
    grad = sum(G[..., m, n] * d[m] * d[n] for m in range(4) for n in range(4))
    src = box + 0.5 * s(kp) / s(k) * grad - s(vp) / s(k)
    out[fin] = src / (-G[..., 0, 0])
    egrad = sum(np.abs(G[..., m, n]) * (e[m] * np.abs(d[n]) + np.abs(d[m]) * e[n] + e[m] * e[n] + 1e-12 * np.abs(d[m] * d[n]))
                for m in range(4) for n in range(4))
    agrad = sum(np.abs(G[..., m, n] * d[m] * d[n]) for m in range(4) for n in range(4))
    t = (np.abs(G[..., 1, 1]) * s(f.e_rr) + 2 * np.abs(G[..., 0, 1]) * s(p.e_r) + 2 * np.abs(G[..., 1, 3]) * s(f.e_rph)
         + np.abs(G[..., 2, 2]) * s(f.e_lap) + np.abs(B[..., 0]) * s(p.e_f) + np.abs(B[..., 1]) * s(f.e_r)
         + 1e-11 * (np.abs(G[..., 1, 1] * s(f.rr)) + 2 * np.abs(G[..., 0, 1] * s(p.r)) + 2 * np.abs(G[..., 1, 3] * s(f.rph))
                    + np.abs(G[..., 2, 2] * s(f.thth)) + np.abs(G[..., 3, 3] * s(f.phph))
                    + np.abs(B[..., 0] * s(p.f)) + np.abs(B[..., 1] * s(f.r)) + np.abs(B[..., 2] * s(f.th)))
         + 0.5 * s(kpa) / np.abs(s(k)) * s(cond) * (egrad + 1e-11 * agrad) + 1e-12 * s(vpa) / np.abs(s(k)) * s(cond))
    # rounding of the coordinate R near the outer edge enters through 1-R/L
    near = ex * 64 / np.maximum(1 - g.R[fin] / g.cl, 1e-16)
    t = t + near[:, None, None] * (np.abs(src) + np.abs(box) + agrad)
    tol[fin] = t / np.abs(G[..., 0, 0]) * 2
    return out, tol


def run(case, ctx):
    s, h, g = open_grid(case, ctx)
    amp = case["amp"]
    q = state_k(case)
    P = new_params(s, ctx, grid_params(case, q))
    e = s.call("eom_new", I=[h, P]).I[0]
    f, p = states(case, g)
    fv, pv = g.flat(f.f), g.flat(p.f)
    nan = np.full(g.N, np.nan)
    if case["decoy"]:
        r = np.random.default_rng(case["seed"])
        dv = [0.3 * r.uniform(-1, 1, g.N), r.uniform(-1, 1, g.N)]
        if case["decoy"] == 2:
            s.call("eom_rho", I=[e, h], A=dv + [nan])
        else:
            s.call("eom_k", I=[e, h], A=dv + [nan, nan])
    fk, pk, f2, p2 = s.call("eom_k", I=[e, h], A=[fv, pv, nan, nan]).A
    unchanged("f", fv, f2)
    unchanged("p", pv, p2)
    check(fw.same_bits(fk, pv) or bool(np.all(fk == pv)), "time derivative of the field is not p")
    want, tol = rhs(g, case["M"], case["a"], q, f, p)
    close("time derivative of p", g.unflat(pk), want, tol)
    lab = ["decoy"] if case["decoy"] else []
    if min(case["lcut"], g.nl, g.nm) >= 1:
        lab.append("l>=1")
    if min(case["deg"], 6) >= 1 and amp[1] > 0:
        lab.append("radial")
    if case["a"]:
        lab.append("spin")
    if any(q[k] for k in ("km1", "k1", "k2")):
        lab.append("coupled")
    if any(q[k] for k in ("V2", "V3", "V4")):
        lab.append("potential")
    return lab


def nontrivial(case, labels):
    return "l>=1" in labels and "radial" in labels

from hypothesis import strategies as st
import numpy as np
import fw, gen, ref
from fw import check, close, unchanged, VARIANTS
from kerrbase import *

RULE = ("masses, spins, grids, couplings and states as for E01; energy density compared with n^mu n^nu T_mu_nu from the numerically inverted "
        "metric at every point; negative values reported when k>0 and V>=0. Corner cases with more points than fit in 16 bits. Non-trivial: field depends on R and has l>=1, momentum nonzero.")
DECOYS = True
COUNT = {"quick": 9600, "thorough": 180000}


def strategy(tier):
    return kgrid(10, 20 if tier == "quick" else 28, 4 if tier == "quick" else 7, wide=True).flatmap(state).flatmap(
        lambda c: st.sampled_from([0, 0, 1, 2]).map(lambda k: dict(c, decoy=k)))


def corners(tier):
    return [dict(c, decoy=i % 3) for i, c in enumerate(corner_states() + huge_states(tier))]


def rho(g, M, a, q, f, p):
    r = radii(g)
    fin = np.isfinite(r)
    k, V = ref.kfun(q, f.f), ref.vfun(q, f.f)
    ka = abs(q["k0"]) + abs(q["km1"]) / np.abs(1 + f.f) + abs(q["k1"] * f.f) + abs(q["k2"]) / 2 * f.f ** 2
    Va = abs(q["V2"]) / 2 * f.f ** 2 + abs(q["V3"] / 6 * f.f ** 3) + abs(q["V4"]) / 24 * f.f ** 4
    out = k / 2 * p.f ** 2 + V
    tol = 1e-12 * (ka * p.f ** 2 + Va) + 1e-11 * ka * (f.A + p.A) ** 2
    s = lambda A: A[fin]
    rr, th = np.broadcast_arrays(r[fin][:, None], g.sp.th[None, :])
    G = scaled_inverse(M, a, rr + 0j, th + 0j).real[:, :, None]
    al2 = -1.0 / G[..., 0, 0]
    d = [s(p.f), s(f.r), s(f.th), s(f.ph)]
    e = [s(p.e_f), s(f.e_r), s(f.e_th), s(f.e_ph)]
    # T_mn n^m n^n = k ( (n.d)^2 + (1/2) g^mn d_m d_n ) + V
    nd = sum(G[..., 0, m] * d[m] for m in range(4))
    nd2 = al2 * nd ** 2
    grad = sum(G[..., m, n] * d[m] * d[n] for m in range(4) for n in range(4))
    out[fin] = s(k) * (nd2 + 0.5 * grad) + s(V)
    agrad = sum(np.abs(G[..., m, n] * d[m] * d[n]) for m in range(4) for n in range(4))
    egrad = sum(np.abs(G[..., m, n]) * (e[m] * np.abs(d[n]) + np.abs(d[m]) * e[n] + e[m] * e[n]) for m in range(4) for n in range(4))
    and_ = sum(np.abs(G[..., 0, m] * d[m]) for m in range(4))
    end = sum(np.abs(G[..., 0, m]) * e[m] for m in range(4))
    near = 64 * ref.EPS / np.maximum(1 - g.R[fin] / g.cl, 1e-16)
    sz = al2 * and_ ** 2 + agrad
    tol[fin] = 2 * s(ka) * (al2 * (2 * and_ * end + end ** 2) + egrad + (1e-11 + near[:, None, None]) * sz) + 1e-12 * s(Va)
    return out, tol, k


def run(case, ctx):
    s, h, g = open_grid(case, ctx)
    amp = case["amp"]
    q = state_k(case)
    P = new_params(s, ctx, grid_params(case, q))
    e = s.call("eom_new", I=[h, P]).I[0]
    f, p = states(case, g)
    fv, pv = g.flat(f.f), g.flat(p.f)
    nan = np.full(g.N, np.nan)
    if case["decoy"]:
        r = np.random.default_rng(case["seed"])
        dv = [0.3 * r.uniform(-1, 1, g.N), r.uniform(-1, 1, g.N)]
        if case["decoy"] == 2:
            s.call("eom_rho", I=[e, h], A=dv + [nan])
        else:
            s.call("eom_k", I=[e, h], A=dv + [nan, nan])
    o, f2, p2 = s.call("eom_rho", I=[e, h], A=[fv, pv, nan]).A
    unchanged("f", fv, f2)
    unchanged("p", pv, p2)
    want, tol, k = rho(g, case["M"], case["a"], q, f, p)
    o = g.unflat(o)
    close("energy density", o, want, tol)
    lab = []
    if np.all(k > 0) and q["V2"] >= 0 and q["V3"] == 0 and q["V4"] >= 0:
        check(bool(np.all(o >= -tol)), "negative energy density")
        lab.append("positive")
    if min(case["lcut"], g.nl, g.nm) >= 1:
        lab.append("l>=1")
    if min(case["deg"], 6) >= 1:
        lab.append("radial")
    if case["a"]:
        lab.append("spin")
    return lab


def nontrivial(case, labels):
    return "l>=1" in labels and "radial" in labels and case["amp"][1] > 0

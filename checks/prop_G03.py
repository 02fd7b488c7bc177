from hypothesis import strategies as st
import numpy as np
import fw, gen, ref
from fw import check, close, unchanged, VARIANTS
from gridbase import *

RULE = ("grids nx 9..24 (40), nl 1..5 (8) (3/32 of the cases: nx to 130, angular grids to 40x72 or l to 18), amplitudes 1e-60..1e40, 4 variants; an independent band-limited field per shell (smooth, rough or alternating in R), "
        "filtered 1-2 times; compared with the product of the angular factor and the radial filter matrix, end shells with the angular "
        "factor alone. Corner cases with more points than fit in 16 bits. Non-trivial: both the angular and the radial factor change the field by more than 1e-6 of its size.")
DECOYS = True
COUNT = {"quick": 12800, "thorough": 240000}


@st.composite
def strat(draw, tier):
    c = draw(gridspec(VARIANTS, 9, 24 if tier == "quick" else 40, 5 if tier == "quick" else 8))
    c["kind"] = draw(st.sampled_from(["rough", "rough", "alt", "smooth", "hole"]))
    c["modes"] = draw(gen.modes(c["res"]))
    c["full"] = draw(st.booleans())
    c["seed"] = draw(gen.seeds)
    c["repeat"] = draw(st.integers(1, 2))
    c["threads"] = draw(st.sampled_from([1, 1, 1, 3]))
    c["exp"] = draw(st.sampled_from([0, 0, 0, 0, -6, -14, -60, 40]))
    return c


def strategy(tier):
    return strat(tier)


def corners(tier):
    return [dict(c, kind=k, modes=[], full=True, seed=2, repeat=rp, threads=1) for c in grid_corners()
            for k, rp in (("rough", 1), ("alt", 2), ("smooth", 1))] + [dict(c, kind="rough", modes=[], full=True, seed=3, repeat=1, threads=1) for c in huge(tier)]


def run(case, ctx):
    s, h, g = open_grid(case, ctx)
    if case["threads"] > 1:
        s.call("omp", I=[case["threads"], 1])
    nx, sp = case["nx"], g.sp
    r = np.random.default_rng(case["seed"])
    if case["kind"] == "rough":
        rad = r.standard_normal((nx, 2))
    elif case["kind"] == "hole":        # empty outside some shells, and at the ends
        i0 = int(r.integers(1, nx - 1))
        x = np.arange(nx)
        rad = r.standard_normal((nx, 2)) * ((x >= i0) & (x <= i0 + r.integers(0, nx // 2)) & (x < nx - 1))[:, None]
        if case["seed"] % 3 == 1:
            rad[(nx - 1) // 2] = rad[nx // 2] = 0
    elif case["kind"] == "alt":
        rad = (np.where(np.arange(nx) % 2, -1.0, 1.0))[:, None] * (1 + 0.1 * r.standard_normal((nx, 2)))
    else:
        rad = np.stack([np.cos(np.linspace(0, 2, nx)), np.sin(np.linspace(0, 2, nx))], 1)
    c1 = ref.coefs(sp, case["modes"], case["seed"] if case["full"] or not case["modes"] else None)
    c2 = ref.coefs(sp, [], case["seed"] + 1) if case["full"] else c1 * 0.3
    C = (rad[:, :1] * c1[None] + rad[:, 1:] * c2[None]) * 10.0 ** case.get("exp", 0)
    v = np.stack([sp.synth(c) for c in C])
    F = g.radial_filter()
    A = float(np.max(np.abs(C))) * np.sum(sp.fac * np.max(np.abs(sp.P), axis=1)) + 1e-300
    lab = set([case["kind"]])
    fa = sp.filt_factor()
    B = np.max(np.abs(C), axis=1) * np.sum(sp.fac * np.max(np.abs(sp.P), axis=1))      # size of every shell
    for _ in range(case["repeat"]):
        Ca = C * fa[None]
        Cr = F @ Ca
        Cr[0], Cr[-1] = Ca[0], Ca[-1]
        if np.max(np.abs(Ca - C)) > 1e-6 * np.max(np.abs(C)):
            lab.add("angular")
        if np.max(np.abs(Cr - Ca)) > 1e-6 * np.max(np.abs(C)):
            lab.add("radial")
        v = g.unflat(s.call("grid_filter", I=[h], A=[g.flat(v)]).A[0])
        C = Cr
        if g.cheb:
            tol = 2e-12 * A * (1 + nx ** 0.5)
        else:                           # the stencil is local, and so is its rounding
            B = np.abs(F) @ B
            tol = 2e-12 * B[:, None, None] + 1e-300
        close("filtered field", v, np.stack([sp.synth(c) for c in C]), tol)
    return sorted(lab)


def nontrivial(case, labels):
    return "angular" in labels and "radial" in labels

from hypothesis import strategies as st
import numpy as np
import fw, gen, ref
from fw import check, close, unchanged, VARIANTS
from sphbase import *
from gridbase import huge

RULE = ("resolution as for S01; spectrum of sparse/full random fields against sum over m of squared amplitudes; the same after a "
        "rotation by a number of azimuthal grid steps, a sign change and a doubling; for fields without l=nl the l-sum is "
        "compared with the quadrature of f^2. 3D cases: a different field per shell in either radial scheme. "
        "Corner cases with more points than fit in 16 bits. Non-trivial: at least three modes, some with m>0.")
DECOYS = True
COUNT = {"quick": 12000, "thorough": 180000}


def strategy(tier):
    return base(tier).flatmap(lambda c: st.tuples(st.integers(0, 40), st.sampled_from([0, 0, 8, 9, 12]), st.booleans()).map(
        lambda t: dict(c, rot=t[0], nx=t[1], cut=t[2])))


def corners(tier):
    out = []
    for v in VARIANTS:
        for r in corner_res():
            for nx in (0, 9):
                out.append({"variant": v, "res": r, "modes": [], "rand": 2, "exp": 0, "rot": 1, "nx": nx, "cut": False})
                out.append({"variant": v, "res": r, "modes": [[r[0], min(r[:2]), 1.0, 1.0], [max(r[0] - 1, 0), min(r[1], max(r[0] - 1, 0)), 1.0, 0.0]],
                            "rand": None, "exp": 0, "rot": 2, "nx": nx, "cut": True})
    for c in huge(tier):
        out.append({"variant": c["variant"], "res": c["res"], "modes": [], "rand": 2, "exp": 0, "rot": 1, "nx": c["nx"], "cut": False})
    return out


def tolerance(p, c):
    """Each coefficient is off by up to d: sum |f+d|^2 differs by 2 sqrt(p) d + d^2 (with room for many m)."""
    d = 1e-13 * (1 + 0.1 * len(c)) ** 0.5 * (2 * float(np.sum(np.abs(c) ** 2))) ** 0.5
    return 2 * np.sqrt(p) * d + 2 * d * d + 1e-12 * p + 1e-300


def run(case, ctx):
    s = ctx.server(case["variant"])
    res = case["res"]
    nl, nm, nlat, nphi = res
    pc = ref.is_phi(case["variant"])
    sp = ref.Sph(*res)
    ex = 10.0 ** case["exp"]
    c = ref.coefs(sp, case["modes"], case["rand"], 1.0, nl - 1 if case["cut"] else None) * ex
    nz = int(np.count_nonzero(c))
    lab = [">=3 modes"] if nz >= 3 and np.any(np.abs(c[sp.m > 0]) > 0) else []
    if case["nx"]:
        nx = case["nx"]
        g = s.call("grid_new", D=[30.0, 1.5, 30.0], I=[nx] + res).I[0]
        cs = [c * (1 + 0.37 * i) + (ref.coefs(sp, [], 100 + i) * ex * 0.1) for i in range(nx)]
        kind = (case["rand"] or 0) // 3 % 5
        rr = np.random.default_rng(case["rand"] or 0)
        if kind == 1:               # some shells are empty
            cs = [q * (rr.random() < 0.6) for q in cs]
        elif kind == 2:             # some repeat an earlier one, or its opposite
            for i in range(1, nx):
                if rr.random() < 0.5:
                    cs[i] = cs[int(rr.integers(0, i))] * rr.choice([1.0, -1.0])
        elif kind == 3:             # shells of very different size
            cs = [q * 10.0 ** rr.integers(-9, 10) for q in cs]
        F = np.stack([sp.synth(q) for q in cs])
        v = ref.flat(F, pc).reshape(-1)
        o, back = s.call("grid_op", I=[g, 6], A=[v, np.full(nx * nl, np.nan)]).A
        unchanged("field", v, back)
        want = np.stack([sp.power(q)[:nl] for q in cs])
        close("3D spectrum", o.reshape(nx, nl), want, np.stack([tolerance(w, q) for w, q in zip(want, cs)]))
        if kind == 4:               # a shell with a value that is not finite leaves the others alone
            i = int(rr.integers(0, nx))
            F[i, int(rr.integers(0, nlat)), int(rr.integers(0, nphi))] = gen.BAD[int(rr.integers(0, 3))]
            o = s.call("grid_op", I=[g, 6], A=[ref.flat(F, pc).reshape(-1), np.zeros(nx * nl)]).A[0].reshape(nx, nl)
            k = np.arange(nx) != i
            close("3D spectrum of the shells without values that are not finite", o[k], want[k], np.stack([tolerance(w, q) for w, q in zip(want, cs)])[k])
        return lab + ["3D"]
    h = s.call("sph_new", I=res).I[0]
    want = sp.power(c)[:nl]
    f = sp.synth(c)

    def spec(a):
        v = ref.flat(a, pc)
        o, back = s.call("sph_power", I=[h, nl], A=[v]).A
        unchanged("field", v, back)
        check(bool(np.all(o >= 0)), "negative power")
        return o
    tol = tolerance(want, c)
    o = spec(f)
    close("spectrum", o, want, tol)
    close("spectrum of the rotated field", spec(np.roll(f, case["rot"] % nphi, axis=1)), want, tol)
    close("spectrum of -f", spec(-f), want, tol)
    close("spectrum of 2f", spec(2 * f), 4 * want, 4 * tol)
    if not np.any(np.abs(c[sp.l == nl]) > 0):
        q = float(np.sum(sp.w[:, None] * f ** 2) * 2 * np.pi / nphi)
        if nphi > 2 * nm and nlat > nl:
            close("sum over l vs integral of f^2", float(np.sum(o)), q, 1e-11 * float(np.sum(np.abs(c) ** 2)) + 1e-300)
            lab.append("Parseval")
    return lab


def nontrivial(case, labels):
    return ">=3 modes" in labels

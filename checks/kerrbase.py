from hypothesis import strategies as st
import os
import numpy as np
import fw, gen, ref
from fw import check, close, unchanged, VARIANTS
from gridbase import open_grid, huge

ASSUMPTIONS = ["SHTns is replaced by a stand-in written from its documentation (shtns_ref/)",
               "the Kerr line element in ingoing Eddington-Finkelstein coordinates in checks/ref.py"]

QKEYS = ["km1", "k0", "k1", "k2", "V2", "V3", "V4"]


@st.composite
def tiny(draw):
    """Log-uniform magnitudes from 1e-8 to 1: small enough to be taken for zero, large enough to matter."""
    return draw(st.sampled_from([1, -1])) * 10.0 ** -draw(gen.fl(0.0, 8.0))


@st.composite
def coupling(draw):
    kind = draw(st.sampled_from(["canonical", "massive", "quartic", "k1", "k2", "km1", "all", "all", "single", "some", "some", "some", "scaled"]))
    q = dict.fromkeys(QKEYS, 0.0)
    q["k0"] = 1.0
    co = tiny() if draw(st.integers(0, 5)) == 3 else gen.fl(-3, 3)
    if kind == "massive":
        q["V2"] = draw(co)
    elif kind == "quartic":
        q["V2"], q["V3"], q["V4"] = draw(co), draw(co), draw(gen.fl(-100, 100))
    elif kind in ("k1", "k2", "km1"):
        q[kind] = draw(co)
    elif kind == "single":      # no constant term
        q["k0"], q["km1"], q["V2"] = 0.0, draw(st.one_of(gen.fl(0.1, 3), st.just(-1.0))), draw(co)
    elif kind == "all":
        for k in QKEYS:
            q[k] = draw(co)
    elif kind == "some":        # any subset of the terms
        mask = draw(st.integers(1, 63))
        for i, k in enumerate(QKEYS[:1] + QKEYS[2:]):
            if mask >> i & 1:
                q[k] = draw(co)
        q["k0"] = draw(st.sampled_from([1.0, 0.0, 2.0, 0.5, -1.0, 3.0]))
    elif kind == "scaled":      # a constant coupling other than one, with any potential
        q["k0"] = draw(st.sampled_from([2.0, 0.5, -1.0, 10.0]))
        for k in ("V2", "V3", "V4"):
            q[k] = draw(st.sampled_from([0.0, 1.0, -2.0, 7.0]))
    return q


def fix_k(q, amp, off=0.0):
    """Keep k(f) away from zero for |f-off|<=amp (1+f must not vanish there)."""
    q = dict(q)
    if q["k0"] == q["k1"] == q["k2"] == 0 and abs(q["km1"]) > 0.05:
        return q
    top = abs(off) + amp
    rest = abs(q["km1"]) / (abs(1 + off) - amp) + abs(q["k1"]) * top + abs(q["k2"]) / 2 * top ** 2
    if abs(q["k0"]) < 1.3 * rest + 0.1:
        q["k0"] = (1 if q["k0"] >= 0 else -1) * (1.3 * rest + 0.1 + abs(q["k0"]))
    return q


@st.composite
def kgrid(draw, nx_lo=10, nx_hi=20, max_l=4, outside=False, big=True, wide=False):
    """grid + mass + spin; the grid starts anywhere from inside the horizon outwards."""
    M = draw(st.one_of(st.just(1.0), gen.fl(0.1, 5)))
    U = M                       # length scale
    if wide and draw(st.integers(0, 7)) == 5:
        M, U = draw(st.sampled_from([(0.0, 1.0), (0.01, 1.0), (1e-3, 1e-3), (1e3, 1e3), (35.5, 35.5), (0.0, 30.0)]))
    sk = draw(st.sampled_from(["zero", "ext", "-ext", "near", "any", "any", "any", "any", "tiny"]))
    x = {"zero": 0.0, "ext": 1.0, "-ext": -1.0, "near": 0.9999}.get(sk)
    a = M * (draw(tiny() if sk == "tiny" else gen.fl(-0.999, 0.999)) if x is None else x)
    if abs(a) < 1e-290:
        a = 0.0                 # std::stod rejects subnormal numbers
    cl = U * draw(st.one_of(st.just(20.0), gen.fl(3, 60), gen.fl(3, 60), st.sampled_from([1.0, 2.0, 500.0])))
    rp = M + ((M - a) * (M + a)) ** 0.5 or U
    if rp < 0.1 * U:
        rp = 0.5 * U
    rk = draw(st.sampled_from(["horizon", "horizon", "inside", "outside"]))
    r0 = rp * (1.0 if rk == "horizon" else draw(gen.fl(0.45, 1.0)) if rk == "inside" and not outside else draw(gen.fl(1.0, 3.0)))
    Rmin = r0 / (1 + r0 / cl)
    Rmax = cl if draw(st.integers(0, 3)) else Rmin + draw(gen.fl(0.3, 0.99)) * (cl - Rmin)
    nx, res = draw(gen.size(nx_lo, nx_hi)), draw(gen.sphere_res(max_l))
    v = draw(st.sampled_from(VARIANTS))
    if big:
        nx, res = draw(gen.big3(nx, res, v))
    return {"variant": v, "res": res,
            "nx": nx, "rad": [cl, Rmin, Rmax], "M": M, "a": a}


@st.composite
def state(draw, c):
    c["q"] = draw(coupling())
    c["deg"] = draw(st.sampled_from([3, 0, 1, 2, 3, 4, 5, 6, 7, 2, 4, 5]))
    c["lcut"] = draw(st.sampled_from([2, 0, 1, 2, 3, 4, 1, 3]))
    c["amp"] = [draw(st.sampled_from([0.3, 0.6, 0.01, 0.3, 0.6, 0.0])), draw(st.sampled_from([0.3, 2.0, 0.0, 0.01, 0.3, 1.0]))]
    weak = draw(st.sampled_from([1.0] * 7 + [1e-5, 1e-9, 1e-14, 1e-40]))
    if weak < 1:
        c["amp"] = [x * weak for x in c["amp"]]
    c["off"], c["node"] = 0.0, 0
    t = draw(st.integers(0, 11))
    if t == 3:
        c["off"] = draw(st.sampled_from([0.5, 1.0, 2.0, -3.0, 10.0, 100.0, -0.9, -1.05]))
        if abs(c["off"] + 1) < 0.2:         # close to the pole of the kinetic function
            c["amp"][0] *= 0.05
        c["amp"][1] *= draw(st.sampled_from([1, 30.0]))
    elif t == 5:
        c["node"] = draw(st.integers(1, 10 ** 6))
        c["amp"][0] *= 0.4
    c["seed"] = draw(gen.seeds)
    return c


def states(case, g):
    """f and p of the case; node: both exactly zero at one point (f only for odd numbers)."""
    off, node = case.get("off", 0.0), case.get("node", 0)
    out = []
    for i in (0, 1):
        x = State(g, case["seed"] + i, case["deg"], case["lcut"], case["amp"][i])
        if node and (i == 0 or node % 2 == 0):
            x.add(-x.f.reshape(-1)[node % x.f.size])
        elif i == 0 and off:
            x.add(off)
        out.append(x)
    return out


def state_k(case):
    """Couplings of the case with k(f) kept away from zero."""
    a, off = case["amp"][0], case.get("off", 0.0)
    return fix_k(case["q"], 2 * a if case.get("node", 0) else a, off)


def corner_states():
    out = []
    i = 0
    qs = []
    for i, k in enumerate(QKEYS):
        q = dict.fromkeys(QKEYS, 0.0)
        q["k0"] = 1.0
        q[k] = q[k] + 1.5
        qs.append(q)
        qs.append(dict(q, k0=2.5, V2=q["V2"] + 0.7, V4=q["V4"] if i % 2 else 3.0))
    i = 0
    for v in VARIANTS:
        for M, a, rk in ((1.0, 0.7, 1.0), (1.0, 0.0, 1.0), (2.0, -2.0, 1.0), (0.5, 0.5, 0.7), (1.0, 0.9999, 1.5), (1.0, -0.3, 1.0), (3.0, 1.0, 0.6)):
            cl = 20.0 * M
            r0 = rk * (M + ((M - a) * (M + a)) ** 0.5)
            for lcut, deg in ((0, 5), (3, 4)):
                out.append({"variant": v, "res": [[3, 3, 5, 8], [2, 2, 4, 6], [4, 3, 6, 9]][i % 3], "nx": 11 + i % 4,
                            "rad": [cl, r0 / (1 + r0 / cl), cl], "M": M, "a": a, "q": qs[i % len(qs)], "deg": deg, "lcut": lcut,
                            "amp": [0.3, 0.5], "seed": i})
                i += 1
    return out


def huge_states(tier):
    """Grids with more points than fit in 16 bits."""
    out = []
    for i, c in enumerate(huge(tier)):
        q = dict.fromkeys(QKEYS, 0.1)
        q["k0"] = 1.0
        out.append(dict(c, M=1.0, a=0.6, q=q, deg=3, lcut=3, amp=[0.3, 0.5], seed=i, off=0.0, node=0))
    return out


def params_text(d):
    d = {k: (0.0 if isinstance(v, float) and abs(v) < 2.3e-308 else v) for k, v in d.items()}     # std::stod rejects subnormal numbers
    return "".join("%s %s\n" % (k, (repr(float(v)) if isinstance(v, float) else v)) for k, v in d.items())


DEFAULTS = {"nt": 10, "nx": 16, "nl": 2, "nm": 2, "nlat": 4, "nphi": 6, "t_step_save": 1, "dt": 0.01,
            "compactification_length": 20.0, "Rmax": 20.0, "Rmin": 1.5, "black_hole_mass": 1.0, "black_hole_spin": 0.5,
            "km1": 0.0, "k0": 1.0, "k1": 0.0, "k2": 0.0, "V2": 0.0, "V3": 0.0, "V4": 0.0,
            "initial_data_type": "compact_pulse", "initial_data_direction": "ingoing", "amp": 0.1, "rl": 3.0, "ru": 8.0,
            "l_ang": 0, "m_ang": 0}


def grid_params(case, q=None, **kw):
    d = dict(DEFAULTS)
    nl, nm, nlat, nphi = case["res"]
    d.update(nx=case["nx"], nl=nl, nm=nm, nlat=nlat, nphi=nphi, compactification_length=float(case["rad"][0]),
             Rmin=float(case["rad"][1]), Rmax=float(case["rad"][2]))
    if "M" in case:
        d.update(black_hole_mass=float(case["M"]), black_hole_spin=float(case["a"]))
    if q:
        d.update({k: float(v) for k, v in q.items()})
    d.update(kw)
    return d


def new_params(s, ctx, d):
    path = os.path.join(s.dir, "params.txt")
    with open(path, "w") as f:
        f.write(params_text(d))
    return s.call("params_new", S=[path]).I[0]


class State:
    """A field resolved by the grid with all its analytic derivatives (in r, theta, phi)."""

    def __init__(self, g, seed, deg, lcut, amp):
        sp, nx = g.sp, g.nx
        L = min(sp.nl, sp.nm, lcut)
        dmax = nx - 3 if g.cheb else 6
        deg = min(deg, dmax)
        cs = [ref.coefs(sp, [], seed + 7919 * k, 1.0, L) for k in range(deg + 1)]
        cs = [c / (1.0 + sp.l) ** 1.5 / (1 + k) for k, c in enumerate(cs)]
        H = (g.Rmax - g.Rmin) / 2
        u = ref.cheb_x(nx) if g.cheb else np.linspace(-1, 1, nx)
        C = np.polynomial.chebyshev
        V = C.chebvander(u, deg)
        I = np.eye(deg + 1)
        V1 = np.stack([C.chebval(u, C.chebder(I[k])) if k else 0 * u for k in range(deg + 1)], 1) / H
        V2 = np.stack([C.chebval(u, C.chebder(I[k], 2)) if k > 1 else 0 * u for k in range(deg + 1)], 1) / H ** 2
        ang = {w: np.stack([sp.synth(c, w) for c in cs]) for w in ("f", "th", "ph")}
        lap = np.stack([sp.lap(c) for c in cs])
        pp = np.stack([sp.synth(-sp.m ** 2 * c) for c in cs])
        f = np.einsum("xk,kij->xij", V, ang["f"])
        n = amp / max(float(np.max(np.abs(f))), 1e-300) if amp else 0.0
        e = lambda A, B: n * np.einsum("xk,kij->xij", A, B)
        F = (1 - g.R / g.cl)
        if g.Rmax == g.cl:
            F[0 if g.cheb else -1] = 0.0
        F = F[:, None, None]
        self.f = e(V, ang["f"])
        fR, fRR = e(V1, ang["f"]), e(V2, ang["f"])
        self.r = F ** 2 * fR
        self.rr = F ** 4 * fRR - 2 / g.cl * F ** 3 * fR
        self.th, self.ph = e(V, ang["th"]), e(V, ang["ph"])
        self.rth, self.rph = F ** 2 * e(V1, ang["th"]), F ** 2 * e(V1, ang["ph"])
        self.phph = e(V, pp)
        self.lap = e(V, lap)
        st_, ct_ = sp.st[None, :, None], sp.ct[None, :, None]
        self.thth = self.lap - ct_ / st_ * self.th - self.phph / st_ ** 2
        # error bounds of the discrete operators on this field
        A = n * float(np.sum([np.sum(np.abs(c) * sp.fac * np.max(np.abs(sp.P), axis=1)) for c in cs])) + 1e-300
        Fa = np.abs(F) + 4 * ref.EPS
        if g.cheb:
            t1, t2 = 40 * ref.EPS * nx ** 2.5 / H, 40 * ref.EPS * nx ** 4.5 / H ** 2
        else:
            dx = 2 * H / (nx - 1)
            t1, t2 = 64 * ref.EPS * 40 / dx, 64 * ref.EPS * 250 / dx ** 2
        nn = sp.nl + 2.0
        one = np.ones_like(self.f)
        self.e_f = 1e-15 * A * one
        self.e_ph = 1e-13 * nn * A * one
        self.e_th = 1e-12 * nn * A * one
        self.e_lap = 1e-13 * nn ** 2 * A * one
        self.e_r = (t1 * Fa ** 2 * A) * one + 1e-14 * np.abs(self.r)
        self.e_rph = self.e_r * nn
        self.e_rr = (t2 * Fa ** 4 + t1 * 2 / g.cl * Fa ** 3) * A * one + 1e-13 * np.abs(self.rr)
        self.A = A

    def add(self, c):
        """Adds a constant."""
        k = (self.A + abs(c)) / self.A
        self.f = self.f + c
        for e in ("e_f", "e_ph", "e_th", "e_lap", "e_r", "e_rph", "e_rr", "A"):
            setattr(self, e, getattr(self, e) * k)


def inv_metric(M, a, r, th):
    """Contravariant metric, r-scaled frame (theta and phi components in units of 1/r, 1/(r sin)); complex-safe."""
    g = cmetric(M, a, r, th)
    return np.linalg.inv(g)


def cmetric(M, a, r, th):
    s, c = np.sin(th), np.cos(th)
    s2 = s * s
    S = r * r + a * a * c * c
    h = 2 * M * r / S
    g = np.zeros(np.shape(r) + (4, 4), complex)
    g[..., 0, 0] = -(1 - h)
    g[..., 0, 1] = g[..., 1, 0] = h
    g[..., 1, 1] = 1 + h
    g[..., 2, 2] = S
    g[..., 0, 3] = g[..., 3, 0] = -a * h * s2
    g[..., 1, 3] = g[..., 3, 1] = -a * (1 + h) * s2
    g[..., 3, 3] = s2 * (r * r + a * a + a * a * h * s2)
    return g


def scaled_inverse(M, a, r, th):
    """g^{mu nu} computed with scaled angular coordinates for accuracy; r, th may be complex."""
    g = cmetric(M, a, r, th)
    d = np.zeros(np.shape(r) + (4,), complex)
    d[..., 0] = d[..., 1] = 1.0
    d[..., 2] = 1.0 / r
    d[..., 3] = 1.0 / (r * np.sin(th))
    gs = g * d[..., :, None] * d[..., None, :]
    return np.linalg.inv(gs) * d[..., :, None] * d[..., None, :]


def sqrtg(M, a, r, th):
    """sqrt(-g) from the determinant (scaled)."""
    g = cmetric(M, a, r, th)
    d = np.zeros(np.shape(r) + (4,), complex)
    d[..., 0] = d[..., 1] = 1.0
    d[..., 2] = 1.0 / r
    d[..., 3] = 1.0 / (r * np.sin(th))
    gs = g * d[..., :, None] * d[..., None, :]
    return np.sqrt(-np.linalg.det(gs)) * r * r * np.sin(th)


class Kerr:
    """Inverse metric and the first-derivative coefficients of the box operator on the grid."""

    def __init__(self, M, a, r, th):
        r, th = np.broadcast_arrays(r, th)
        self.gi = scaled_inverse(M, a, r + 0j, th + 0j).real
        w = sqrtg(M, a, r + 0j, th + 0j).real
        hr, ht = 1e-30 * np.abs(r), 1e-30
        Gr = (sqrtg(M, a, r + 1j * hr, th + 0j)[..., None, None] * scaled_inverse(M, a, r + 1j * hr, th + 0j)).imag / hr[..., None, None]
        Gt = (sqrtg(M, a, r + 0j, th + 1j * ht)[..., None, None] * scaled_inverse(M, a, r + 0j, th + 1j * ht)).imag / ht
        # (1/w) d_mu (w g^{mu nu})
        self.first = (Gr[..., 1, :] + Gt[..., 2, :]) / w[..., None]


def radii(g):
    """Physical radius per shell; inf for the outer edge of a grid that ends at R=L."""
    with np.errstate(divide="ignore"):
        r = g.R / (1 - g.R / g.cl)
    if g.Rmax == g.cl:
        r[0 if g.cheb else -1] = np.inf
    return r

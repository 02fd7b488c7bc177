"""Independent dense solver of the documented equations and scheme."""
import numpy as np
import ref
from kerrbase import Kerr, radii


class Solver:
    def __init__(self, g, M, a, q, dt):
        self.g, self.q, self.dt = g, q, dt
        sp = g.sp
        ns = sp.nlat * sp.nphi
        I = np.eye(ns).reshape(ns, sp.nlat, sp.nphi)
        A = [sp.analyse(x) for x in I]

        def mat(f):
            return np.stack([f(c).reshape(-1) for c in A], 1)
        self.Lph = mat(lambda c: sp.synth(c, "ph"))
        self.Lth = mat(lambda c: sp.synth(c, "th"))
        self.Lap = mat(sp.lap)
        self.Fil = mat(lambda c: sp.synth(sp.filt(c)))
        F = (1 - g.R / g.cl)
        edge = 0 if g.cheb else -1
        if g.Rmax == g.cl:
            F[edge] = 0.0
        D1, D2 = g.D1(2), g.D2(2)
        self.Dr = (F ** 2)[:, None] * D1
        self.Drr = (F ** 4)[:, None] * D2 - (2 / g.cl * F ** 3)[:, None] * D1
        self.Fr = g.radial_filter()
        r = radii(g)
        self.r = r
        fin = np.isfinite(r)
        K = Kerr(M, a, r[fin][:, None], sp.th[None, :])
        nx = g.nx
        z = lambda: np.zeros((nx, sp.nlat, 1))

        def put(x, inf=0.0):
            o = z() + inf
            o[fin] = x[:, :, None]
            return o
        G, B = K.gi, K.first
        w = -1.0 / G[..., 0, 0]
        s2 = (sp.st ** 2)[None, :]
        self.G00 = put(G[..., 0, 0], -1.0)
        self.w = put(w, 1.0)
        self.c = {k: put(x, v) for k, x, v in [
            ("rr", G[..., 1, 1], 1.0), ("tr", G[..., 0, 1], 0.0), ("rp", G[..., 1, 3], 0.0), ("lap", G[..., 2, 2], 0.0), ("tp", G[..., 0, 3], 0.0),
            ("B0", B[..., 0], 0.0), ("B1", B[..., 1], 0.0), ("pp", G[..., 3, 3] * s2, 0.0)]}
        # the angular part of the box is the unit-sphere Laplacian over Sigma
        assert np.allclose(G[..., 3, 3] * s2, G[..., 2, 2], rtol=1e-9)
        assert np.allclose(B[..., 2] * np.tan(sp.th)[None, :], G[..., 2, 2], rtol=1e-6) or np.any(np.abs(sp.ct) < 1e-6)

    # arrays are [nx, nlat, nphi]
    def ang(self, L, x):
        return (x.reshape(x.shape[0], -1) @ L.T).reshape(x.shape)

    def rad(self, D, x):
        return np.tensordot(D, x, 1)

    def filter(self, x):
        y = self.ang(self.Fil, x)
        z = self.rad(self.Fr, y)
        z[0], z[-1] = y[0], y[-1]
        return z

    def parts(self, f, p):
        sp = self.g.sp
        fr = self.rad(self.Dr, f)
        fp = self.ang(self.Lph, f)
        ft = self.ang(self.Lth, f)
        X = ft ** 2 + (fp / sp.st[None, :, None]) ** 2
        return fr, fp, X

    def rhs(self, f, p):
        q, c = self.q, self.c
        fr, fp, X = self.parts(f, p)
        pr = self.rad(self.Dr, p)
        frr = self.rad(self.Drr, f)
        frp = self.rad(self.Dr, fp)
        box = c["rr"] * frr + 2 * c["tr"] * pr + 2 * c["rp"] * frp + c["lap"] * self.ang(self.Lap, f) + c["B0"] * p + c["B1"] * fr
        k, kp, vp = ref.kfun(q, f), ref.kprime(q, f), ref.vprime(q, f)
        grad = self.G00 * p ** 2 + 2 * c["tr"] * p * fr + c["rr"] * fr ** 2 + 2 * c["rp"] * fr * fp + c["lap"] * X
        return p, self.w * (box + 0.5 * kp / k * grad - vp / k)

    def rho(self, f, p):
        q, c = self.q, self.c
        fr, fp, X = self.parts(f, p)
        nd = self.G00 * p + c["tr"] * fr
        grad = self.G00 * p ** 2 + 2 * c["tr"] * p * fr + c["rr"] * fr ** 2 + 2 * c["rp"] * fr * fp + c["lap"] * X
        return ref.kfun(q, f) * (self.w * nd ** 2 + 0.5 * grad) + ref.vfun(q, f)

    def step(self, f, p):
        """(filtered state, next state)"""
        f, p = self.filter(f), self.filter(p)
        dt = self.dt
        a1, b1 = self.rhs(f, p)
        a2, b2 = self.rhs(f + dt / 2 * a1, p + dt / 2 * b1)
        a3, b3 = self.rhs(f + dt / 2 * a2, p + dt / 2 * b2)
        a4, b4 = self.rhs(f + dt * a3, p + dt * b3)
        return (f, p), (f + dt / 6 * (a1 + 2 * a2 + 2 * a3 + a4), p + dt / 6 * (b1 + 2 * b2 + 2 * b3 + b4))

    def initial(self, amp, rl, ru, l, m, direction):
        g = self.g
        r = self.r
        w = max(abs(ru - rl), 1e-14)
        ins = (r > rl) & (r < ru) & np.isfinite(r)
        b, db = np.zeros(g.nx), np.zeros(g.nx)
        x, y = (r[ins] - rl) / w, (ru - r[ins]) / w
        with np.errstate(all="ignore"):
            E = np.exp(-1 / x) * np.exp(-2 / y)
            b[ins] = x ** 4 * y ** 4 * E
            db[ins] = (4 * x ** 3 * y ** 4 - 4 * x ** 4 * y ** 3 + x ** 2 * y ** 4 - 2 * x ** 4 * y ** 2) * E / w
        e = np.zeros(len(g.sp.lm), complex)
        e[g.sp.ix[(l, m)]] = 1
        Y = g.sp.synth(e)[None]
        f = b[:, None, None] * Y
        mx = float(np.max(np.abs(f)))
        if mx <= 1e-16:
            return f, np.zeros_like(f), mx
        sg = {"ingoing": 1.0, "outgoing": -1.0}.get(direction, 0.0)
        return f * amp / mx, sg * amp / mx * db[:, None, None] * Y, mx

    def power(self, f):
        sp = self.g.sp
        return np.stack([sp.power(sp.analyse(x))[:sp.nl] for x in f])

    def tv(self, f):
        d = (f[1:, :-1, :-1] - f[:-1, :-1, :-1]) ** 2 + (f[:-1, 1:, :-1] - f[:-1, :-1, :-1]) ** 2 + (f[:-1, :-1, 1:] - f[:-1, :-1, :-1]) ** 2
        return float(np.sum(np.sqrt(d))) / f.size

    def res(self, f0, f1, p):
        return float(np.sqrt(np.mean((p - (f1 - f0) / self.dt) ** 2)))

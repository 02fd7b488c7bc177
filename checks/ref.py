"""Reference models (independent of the code under test)."""
from fractions import Fraction
from functools import lru_cache
import numpy as np
from scipy import sparse
from scipy.special import sph_harm_y

EPS = np.finfo(float).eps


# ------------------------------------------------------------------ Chebyshev
def cheb_x(n):
    """Gauss-Lobatto points on [-1,1], from +1 down to -1."""
    k = np.arange(n)
    return np.sin(np.pi * (n - 1 - 2 * k) / (2.0 * (n - 1)))


def cheb_nodes(n, lo, up):
    return (up - lo) / 2.0 * cheb_x(n) + (up + lo) / 2.0


def _cached(f):
    """lru_cache that does not hold on to large matrices."""
    small, large = lru_cache(maxsize=64)(f), lru_cache(maxsize=2)(f)
    return lambda n, *a: (small if n <= 700 else large)(n, *a)


DENSE = 2500        # longer transforms are evaluated by scipy's cosine transform, not as matrices


class _LongCheb:
    """Synthesis (or analysis) operator of a long grid: same meaning as the matrix."""

    def __init__(self, n, ana):
        self.n, self.ana = n, ana

    def __matmul__(self, v):
        from scipy.fft import dct
        n, v = self.n, np.array(v, dtype=float)
        if self.ana:
            c = dct(v, type=1) / (n - 1.0)
            c[0] /= 2.0
            c[-1] /= 2.0
            return c
        v[1:-1] /= 2.0
        return dct(v, type=1)

    def __getitem__(self, ix):
        assert not self.ana and ix[0] == slice(None)
        j = np.arange(self.n)
        return np.cos(np.pi * ((j * ix[1]) % (2 * (self.n - 1))) / (self.n - 1))


@_cached
def cheb_T(n):
    """T[j,k] = T_k(x_j), angles reduced exactly."""
    if n > DENSE:
        return _LongCheb(n, False)
    j = np.arange(n)[:, None]
    k = np.arange(n)[None, :]
    q = (j * k) % (2 * (n - 1))
    tab = np.cos(np.pi * np.arange(2 * (n - 1)) / (n - 1))
    return tab[q]


@_cached
def cheb_A(n):
    """Analysis matrix: coefficients of the interpolant."""
    if n > DENSE:
        return _LongCheb(n, True)
    T = cheb_T(n).T.copy()
    w = np.full(n, 2.0)
    w[0] = w[-1] = 1.0
    A = T * w[None, :] / (n - 1.0)
    A[0] /= 2.0
    A[-1] /= 2.0
    return A


def cheb_dcoef(c):
    """Coefficients of d/dx of sum c_k T_k (exact recurrence), any length."""
    n = len(c)
    d = np.zeros(n)
    if n > 1:
        b = np.zeros(n + 2)
        for k in range(n - 1, 0, -1):
            b[k - 1] = b[k + 1] + 2.0 * k * c[k]
        d[:] = b[:n]
        d[0] /= 2.0
    return d


def cheb_filter_factors(n):
    return np.exp(-40.0 * (np.arange(n) / float(n)) ** 16)


@_cached
def cheb_D(n, drop=0):
    """Differentiation matrix on [-1,1]; drop = number of top modes ignored."""
    C = np.zeros((n, n))
    for k in range(n - drop):
        e = np.zeros(n)
        e[k] = 1
        C[:, k] = cheb_dcoef(e)
    return cheb_T(n) @ C @ cheb_A(n)


# ------------------------------------------------------------------ finite differences
def fornberg(z, xs, m):
    """Exact weights of the m-th derivative at z of the interpolant through xs (Fractions)."""
    n = len(xs)
    # Lagrange basis polynomials in exact arithmetic, shifted to z
    xs = [Fraction(x) - Fraction(z) for x in xs]
    w = []
    for i in range(n):
        poly = [Fraction(1)]
        den = Fraction(1)
        for j in range(n):
            if j == i:
                continue
            poly = [Fraction(0)] + poly
            for k in range(len(poly) - 1):
                poly[k] -= xs[j] * poly[k + 1]
            den *= xs[i] - xs[j]
        f = 1
        for k in range(2, m + 1):
            f *= k
        w.append(poly[m] * f / den)
    return w


@lru_cache(maxsize=None)
def fd_stencil(m, pos):
    """m: derivative order; pos: None for centred, else offset 0,1,2 from the lower end.
    Returns (offsets relative to point, weights) for unit spacing."""
    if pos is None:
        off = list(range(-3, 4))
    else:
        npts = 7 if m == 1 else 8
        off = [k - pos for k in range(npts)]
    return off, [float(x) for x in fornberg(0, off, m)]


def fd_matrix(n, m, dx):
    W = np.zeros((n, n))
    for i in range(n):
        if i < 3:
            off, w = fd_stencil(m, i)
        elif i >= n - 3:
            off, w = fd_stencil(m, n - 1 - i)
            off = [-o for o in off]
            if m % 2:
                w = [-x for x in w]
        else:
            off, w = fd_stencil(m, None)
        for o, x in zip(off, w):
            W[i, i + o] += x
    return W / dx ** m


def fd_sparse(n, m):
    """The same for unit spacing and long arrays."""
    k = 30
    w = fd_matrix(k, m, 1.0)
    off, c = fd_stencil(m, None)
    i = np.arange(3, n - 3)
    rows = [np.repeat(i, len(off))]
    cols = [(i[:, None] + np.array(off)[None, :]).ravel()]
    vals = [np.tile(c, len(i))]
    for j in range(3):
        rows += [np.full(k, j), np.full(k, n - 1 - j)]
        cols += [np.arange(k), np.arange(n - k, n)]
        vals += [w[j], w[k - 1 - j]]
    return sparse.csr_matrix((np.concatenate(vals), (np.concatenate(rows), np.concatenate(cols))), shape=(n, n))


KO = np.array([1, -8, 28, -56, 70, -56, 28, -8, 1], float)


def ko_matrix(n):
    F = np.eye(n)
    for i in range(4, n - 4):
        F[i, i - 4:i + 5] -= KO / 256.0
    return F


# ------------------------------------------------------------------ sphere
class Sph:
    """Reference spherical grid: Gauss-Legendre north to south x equispaced longitudes."""
    _cache = {}

    def __new__(cls, nl, nm, nlat, nphi):
        k = (nl, nm, nlat, nphi)
        o = cls._cache.get(k)
        if o is None:
            if len(cls._cache) > 24:
                cls._cache.clear()
            o = object.__new__(cls)
            o._setup(*k)
            cls._cache[k] = o
        return o

    def _setup(self, nl, nm, nlat, nphi):
        self.nl, self.nm, self.nlat, self.nphi = nl, nm, nlat, nphi
        x, w = np.polynomial.legendre.leggauss(nlat)
        self.ct, self.w = x[::-1].copy(), w[::-1].copy()
        self.th = np.arccos(self.ct)
        self.st = np.sqrt((1 - self.ct) * (1 + self.ct))
        self.ph = 2 * np.pi * np.arange(nphi) / nphi
        self.lm = [(l, m) for m in range(nm + 1) for l in range(m, nl + 1)]
        self.ix = {q: i for i, q in enumerate(self.lm)}
        self.l = np.array([q[0] for q in self.lm])
        self.m = np.array([q[1] for q in self.lm])
        # P[i,it]: Y_lm(theta,0);  dP: theta derivative
        L, M = self.l[:, None], self.m[:, None]
        self.P = sph_harm_y(L, M, self.th[None, :], 0.0).real
        up = np.where(M + 1 <= L, sph_harm_y(L, np.minimum(M + 1, L), self.th[None, :], 0.0).real, 0.0)
        cot = (self.ct / self.st)[None, :]
        self.dP = M * cot * self.P + np.sqrt((L - M) * (L + M + 1.0)) * up
        self.E = np.exp(1j * self.m[:, None] * self.ph[None, :])
        self.fac = np.where(self.m == 0, 1.0, 2.0)

    def synth(self, c, which="f"):
        """c: complex per (l,m>=0) coefficient; returns [nlat,nphi] real field."""
        c = np.asarray(c, complex) * self.fac
        P = self.dP if which == "th" else self.P
        if which == "ph":
            c = c * 1j * self.m
        out = np.zeros((self.nlat, self.nphi), complex)
        for m in range(self.nm + 1):
            s = self.m == m
            if not np.any(c[s]):
                continue
            out += np.outer(P[s].T @ c[s], np.exp(1j * m * self.ph))
        return out.real

    def analyse(self, f):
        """f [nlat,nphi] -> coefficients (quadrature)."""
        F = np.fft.fft(f, axis=1) / self.nphi * 2 * np.pi     # int f e^{-im phi}
        out = np.zeros(len(self.lm), complex)
        for m in range(self.nm + 1):
            s = self.m == m
            out[s] = self.P[s] @ (self.w * F[:, m % self.nphi])
        return out

    def lap(self, c):
        return self.synth(-(self.l * (self.l + 1.0)) * c)

    def filt(self, c):
        return c * self.filt_factor()

    def filt_factor(self):
        return np.exp(-40.0 * (self.l / float(self.nl)) ** 16) * np.exp(-40.0 * (self.m / float(self.nl)) ** 16)

    def power(self, c):
        p = np.zeros(self.nl + 1)
        np.add.at(p, self.l, self.fac * np.abs(c) ** 2)
        return p


def flat(a, phi_contig):
    """[..., nlat, nphi] -> flat in the code's layout."""
    a = np.asarray(a)
    if not phi_contig:
        a = np.swapaxes(a, -1, -2)
    return np.ascontiguousarray(a).reshape(a.shape[:-2] + (-1,))


def unflat(v, nlat, nphi, phi_contig):
    v = np.asarray(v)
    if phi_contig:
        return v.reshape(v.shape[:-1] + (nlat, nphi))
    return np.swapaxes(v.reshape(v.shape[:-1] + (nphi, nlat)), -1, -2)


def is_phi(variant):
    return variant.endswith("phi")


def is_cheb(variant):
    return variant.startswith("cheb")


def pinned(sp, c, kind, r):
    """The nearest coefficients whose field satisfies a few linear conditions on the grid: zero or constant along a
    latitude or meridian, zero at three points, symmetric or antisymmetric along one meridian, or without a mean."""
    it = int(r.choice([0, sp.nlat // 2, sp.nlat - 1, r.integers(0, sp.nlat)]))
    ip = int(r.choice([0, 0, sp.nphi - 1, r.integers(0, sp.nphi)]))
    sub = int(r.integers(0, 3))
    B = lambda t, p: np.concatenate([sp.fac * sp.P[:, t] * np.cos(sp.m * sp.ph[p]), -sp.fac * sp.P[:, t] * np.sin(sp.m * sp.ph[p])])
    if kind == 12:
        A = [B(it, p) for p in range(sp.nphi)]
        if sub == 1:
            A = [x - A[0] for x in A[1:]]
    elif kind == 13:
        A = [B(t, ip) for t in range(sp.nlat)]
        if sub:
            A = [A[t] - A[-1 - t] if sub == 1 else A[t] + A[-1 - t] for t in range((sp.nlat + 1) // 2)]
    elif kind == 14:
        A = [B(0, 0), B(sp.nlat // 2, sp.nphi // 2), B(sp.nlat - 1, sp.nphi - 1), B(it, ip)]
        if sub == 1:
            A = [x - A[0] for x in A[1:]]
    else:
        A = [sum(B(t, p) for t in range(sp.nlat) for p in range(min(sp.nphi, 64)))]
        if sub == 1:
            A = [B(0, p) for p in range(sp.nphi)] + [B(sp.nlat - 1, p) for p in range(sp.nphi)]
        elif sub == 2:
            A = [B(t, 0) for t in range(sp.nlat)] + [B(t, sp.nphi // 2) for t in range(sp.nlat)]
    A = np.array(A)
    if A.size == 0:
        return c
    on = np.concatenate([c != 0, (c != 0) & (sp.m > 0)])
    A = A[:, on]
    x = np.concatenate([c.real, c.imag])[on]
    if not x.size:
        return c
    y = x
    for _ in range(2):
        y = y - np.linalg.lstsq(A, A @ y, rcond=1e-11)[0]
    if np.max(np.abs(y)) < 1e-3 * np.max(np.abs(x)):
        return c
    z = np.zeros(2 * len(c))
    z[on] = y
    return z[:len(c)] + 1j * z[len(c):]


def coefs(sp, modes, rand=None, scale=1.0, lmax=None):
    """modes: list of [l,m,re,im]; rand: seed of an extra full random spectrum (of several kinds, chosen by the seed)."""
    c = np.zeros(len(sp.lm), complex)
    if rand is not None:
        r = np.random.default_rng(rand)
        c = (r.standard_normal(len(c)) + 1j * r.standard_normal(len(c))) * scale
        c[sp.m == 0] = c[sp.m == 0].real
        kind = rand // 7 % 16
        if kind == 4:                     # sine modes only: zero on the first meridian
            c = 1j * c.imag
        elif kind == 5:                   # odd under reflection: zero on the equator
            c = c * ((sp.l + sp.m) % 2)
        elif kind == 6:                   # magnitudes spread over many decades
            c = c * 10.0 ** -r.uniform(0, 14, len(c))
        elif kind == 7:                   # cosine modes only
            c = c.real + 0j
        elif kind == 8:                   # zero on the axis
            c = c * (sp.m > 0)
        elif kind == 9:                   # decay with l
            c = c * 10.0 ** (-1.5 * sp.l)
        if lmax is not None:
            c[sp.l > lmax] = 0
        if kind >= 12:
            c = pinned(sp, c, kind, r)
    for l, m, re, im in modes:
        l = min(l, sp.nl if lmax is None else lmax)
        m = min(m, l, sp.nm)
        c[sp.ix[(l, m)]] += re + (1j * im if m else 0)
    return c


# ------------------------------------------------------------------ 3D reference grid
class G3:
    def __init__(self, variant, cl, Rmin, Rmax, nx, nl, nm, nlat, nphi):
        self.variant, self.cl, self.Rmin, self.Rmax, self.nx = variant, cl, Rmin, Rmax, nx
        self.cheb = is_cheb(variant)
        self.phi_contig = is_phi(variant)
        self.sp = Sph(nl, nm, nlat, nphi)
        self.nl, self.nm, self.nlat, self.nphi = nl, nm, nlat, nphi
        if self.cheb:
            self.R = cheb_nodes(nx, Rmin, Rmax)
        else:
            self.R = Rmin + (Rmax - Rmin) / (nx - 1.0) * np.arange(nx)
        self.N = nx * nlat * nphi

    def flat(self, a):
        return flat(a, self.phi_contig).reshape(-1)

    def unflat(self, v):
        return unflat(np.asarray(v).reshape(self.nx, -1), self.nlat, self.nphi, self.phi_contig)

    # radial operators as matrices
    def D1(self, drop=0):
        if self.cheb:
            return cheb_D(self.nx, drop) * 2.0 / (self.Rmax - self.Rmin)
        return fd_matrix(self.nx, 1, (self.Rmax - self.Rmin) / (self.nx - 1.0))

    def D2(self, drop=0):
        if self.cheb:
            d = self.D1(drop)
            return d @ d
        return fd_matrix(self.nx, 2, (self.Rmax - self.Rmin) / (self.nx - 1.0))

    def radial_filter(self):
        if self.cheb:
            return cheb_T(self.nx) @ (cheb_filter_factors(self.nx)[:, None] * cheb_A(self.nx))
        return ko_matrix(self.nx)


# ------------------------------------------------------------------ Kerr, ingoing Eddington-Finkelstein
def kerr_metric(M, a, r, th):
    """Covariant metric in (t,r,theta,phi); arrays broadcast, last two axes 4x4.

    ds^2 = -(1-2Mr/S)dt^2 + (4Mr/S)dt dr + (1+2Mr/S)dr^2 + S dth^2
           - (4aMr/S) sin^2 dt dph - 2a(1+2Mr/S) sin^2 dr dph
           + sin^2 (r^2+a^2+2Ma^2 r sin^2/S) dph^2
    """
    r, th = np.broadcast_arrays(np.asarray(r, float), np.asarray(th, float))
    s2 = np.sin(th) ** 2
    S = r * r + a * a * np.cos(th) ** 2
    h = 2 * M * r / S
    g = np.zeros(r.shape + (4, 4))
    g[..., 0, 0] = -(1 - h)
    g[..., 0, 1] = g[..., 1, 0] = h
    g[..., 1, 1] = 1 + h
    g[..., 2, 2] = S
    g[..., 0, 3] = g[..., 3, 0] = -a * h * s2
    g[..., 1, 3] = g[..., 3, 1] = -a * (1 + h) * s2
    g[..., 3, 3] = s2 * (r * r + a * a + a * a * h * s2)
    return g, S


def kfun(q, f):
    return q["k0"] + q["km1"] / (1 + f) + q["k1"] * f + q["k2"] / 2.0 * f * f


def kprime(q, f):
    return -q["km1"] / (1 + f) ** 2 + q["k1"] + q["k2"] * f


def vfun(q, f):
    return q["V2"] / 2.0 * f ** 2 + q["V3"] / 6.0 * f ** 3 + q["V4"] / 24.0 * f ** 4


def vprime(q, f):
    return q["V2"] * f + q["V3"] / 2.0 * f ** 2 + q["V4"] / 6.0 * f ** 3

"""Shared Hypothesis strategies."""
from hypothesis import strategies as st

seeds = st.integers(0, 2 ** 31 - 1)


def fl(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False, width=64)


@st.composite
def interval(draw):
    """[lo, up] of many kinds: plain, offset, tiny, huge."""
    kind = draw(st.sampled_from(["unit", "plain", "plain", "offset", "tiny", "huge", "compact", "round"]))
    if kind == "unit":
        return [-1.0, 1.0]
    if kind == "round":             # ends at or symmetric about zero, whole numbers
        b = draw(st.one_of(st.sampled_from([1.0, 2.0, 0.5, 20.0, 10.0, 100.0, 3.0]), fl(0.01, 100)))
        return draw(st.sampled_from([[0.0, b], [-b, 0.0], [-b, b], [1.0, 1.0 + b], [-1.0, b]]))
    if kind == "plain":
        a = draw(fl(-10, 10)); return [a, a + draw(fl(0.01, 20))]
    if kind == "offset":
        a = draw(fl(50, 1000)) * draw(st.sampled_from([-1, 1])); return [a, a + draw(fl(1, 10))]
    if kind == "tiny":
        a = draw(fl(-1e-4, 1e-4)); return [a, a + draw(fl(1e-6, 1e-3))]
    if kind == "huge":
        a = draw(fl(-1e6, 1e6)); return [a, a + draw(fl(1e5, 1e7))]
    a = draw(fl(0.2, 3)); return [a, draw(fl(a + 1, a + 100))]


def size(lo, hi, *special):
    o = [st.integers(lo, min(hi, lo + 8)), st.integers(lo, min(hi, 40)), st.integers(lo, hi)]
    if special:
        o.append(st.sampled_from([s for s in special if lo <= s <= hi]))
    return st.one_of(*o)


CHEB_BIG = [512, 513, 600, 777, 1000, 1024, 1025, 1500, 2048, 2049]
CHEB_LONG = [3001, 4096, 4097, 8192, 8193, 16385, 40000, 65537, 70001]
FD_BIG = CHEB_BIG + [3000, 4096, 4097, 8192, 8193]


@st.composite
def n1d(draw, lo, hi, big, *special):
    """Length of a radial array; now and then as long as in production runs."""
    if draw(st.integers(0, 249)) == 77:
        return draw(st.sampled_from(big))
    return draw(size(lo, hi, *special))


@st.composite
def sphere_res(draw, max_l=14, ladder=False, min_l=1):
    """nl, nm, nlat, nphi inside the exact-transform domain."""
    nl = draw(st.one_of(st.integers(min_l, 4), st.integers(min_l, max_l)))
    nm = draw(st.one_of(st.integers(0, nl), st.just(nl)))
    nlat = draw(st.one_of(st.just(nl + 1), st.integers(nl + 1, nl + 6), st.integers(nl + 1, 2 * nl + 4)))
    nphi = draw(st.one_of(st.just(2 * nm + 1), st.integers(2 * nm + 1, 2 * nm + 7)))
    if draw(st.booleans()):
        nlat += nlat % 2
        nphi += (-nphi) % 4
    return [nl, nm, nlat, nphi]


@st.composite
def big3(draw, nx, res, variant, lo=25, hi=130):
    """Now and then a grid that is long in radius or fine in angle."""
    k = draw(st.integers(0, 31))
    if k == 11 and draw(st.integers(0, 5)) == 3:
        nx = draw(st.sampled_from([150, 200, 256, 257] if variant.startswith("cheb") else [200, 256, 257, 300, 512, 513, 777, 1024, 1025]))
        res = [1, min(res[1], 1), 2, draw(st.sampled_from([3, 4]))]
    elif k == 11:
        nx = draw(st.one_of(st.integers(lo, hi), st.sampled_from([32, 33, 64, 65, 100, 127, 128, 129])))
        nl = min(res[0], 3)
        nm = min(res[1], nl)
        res = [nl, nm, min(res[2], nl + 4), min(res[3], 2 * nm + 4)]
    elif k == 21:
        nx = min(nx, 11)
        res = [res[0], res[1], draw(st.integers(max(res[2], 17), 40)), draw(st.integers(max(res[3], 17), 72))]
    elif k == 22:
        nx = min(nx, 11)
        nl = draw(st.integers(8, 18))
        nm = draw(st.one_of(st.integers(0, nl), st.just(nl)))
        res = [nl, nm, nl + draw(st.integers(1, 6)), 2 * nm + draw(st.integers(1, 6))]
    return nx, res


@st.composite
def modes(draw, res, lmax=None, min_size=0, max_size=4):
    nl, nm = res[0], res[1]
    L = nl if lmax is None else lmax
    out = []
    for _ in range(draw(st.integers(min_size, max_size))):
        kind = draw(st.sampled_from(["any", "any", "top_l", "top_m", "sector"]))
        if kind == "top_l":
            l = L; m = draw(st.integers(0, min(nm, l)))
        elif kind == "top_m":
            m = min(nm, L); l = draw(st.integers(m, L))
        elif kind == "sector":
            m = draw(st.integers(0, min(nm, L))); l = m
        else:
            l = draw(st.integers(0, L)); m = draw(st.integers(0, min(nm, l)))
        out.append([l, m, draw(st.sampled_from([1.0, -2.0, 0.5, 0.0])), draw(st.sampled_from([0.0, 1.0, -0.75]))])
    return out


@st.composite
def data(draw, extreme=True):
    kinds = ["rand", "rand", "sparse", "smooth", "alt", "const", "ramp"]
    if extreme:
        kinds += ["mixed", "spike"]
    d = {"kind": draw(st.sampled_from(kinds)), "seed": draw(seeds)}
    d["exp"] = draw(st.sampled_from([0, 0, 0, 0, -8, 8, -100, 100] if extreme else [0, 0, -3, 3]))
    if d["kind"] in ("sparse", "spike"):
        d["at"] = draw(st.lists(st.integers(0, 10 ** 6), min_size=1, max_size=3))
    return d


def make(d, n):
    """Array of n samples for a data descriptor."""
    import numpy as np
    r = np.random.default_rng(d["seed"])
    k = d["kind"]
    if k == "rand":
        v = r.standard_normal(n)
    elif k == "sparse":
        v = np.zeros(n)
        for a in d["at"]:
            v[a % n] = 1.0 + (a % 7)
    elif k == "smooth":
        x = np.linspace(-1, 1, n)
        v = np.zeros(n)
        for q in range(6):
            v += r.standard_normal() * np.cos(q * x + r.uniform(0, 6))
    elif k == "alt":
        v = np.where(np.arange(n) % 2 == 0, 1.0, -1.0) * (1 + 0.1 * r.standard_normal())
    elif k == "const":
        v = np.full(n, 1.0 + r.standard_normal())
    elif k == "ramp":
        v = r.standard_normal() + r.standard_normal() * np.arange(n)
    elif k == "mixed":
        v = r.standard_normal(n) * 10.0 ** r.uniform(-14, 14, n)
    elif k == "spike":
        v = r.standard_normal(n)
        for a in d["at"]:
            v[a % n] = 1e120 * (1 + a % 3)
    return v * 10.0 ** d["exp"]


BAD = [float("nan"), float("inf"), -float("inf")]


def bad():
    """Samples that are not finite, at 1-3 places (fractions of the length, with the kind of value), or None."""
    one = st.tuples(fl(0, 1), st.integers(0, 2)).map(list)
    return st.one_of(st.none(), st.none(), st.none(), st.lists(one, min_size=1, max_size=3))


def spoil(v, where, half, nend, wend):
    """Copy of v with the bad samples, and the points whose result may not depend on them: `half` neighbours on
    either side count, and wend samples for the nend points next to each end."""
    import numpy as np
    n = len(v)
    w = v.copy()
    free = np.ones(n, bool)
    for f, k in where:
        j = min(int(f * n), n - 1)
        w[j] = BAD[k]
        free[max(0, j - half):j + half + 1] = False
        if wend:
            if j < wend:
                free[:nend] = False
            if j >= n - wend:
                free[n - nend:] = False
        else:
            for i in list(range(nend)) + list(range(n - nend, n)):
                free[i] = free[i] and i != j
    return w, free

from hypothesis import strategies as st
import numpy as np
import fw, gen, ref
from fw import check, close, unchanged, VARIANTS
from sphbase import *

RULE = ("resolution nl 1..14 (22 thorough), nm<=nl, nlat>nl, nphi>2nm incl. minimal, odd and even; four build variants; "
        "band-limited fields as sparse modes (top l, top m, sectoral favoured) and/or a full random spectrum, scaled by "
        "10^-30..10^30; real and complex (complex needs l<=nm) forward and backward transforms plus basis fields against "
        "scipy spherical harmonics. Non-trivial: nl>=2 and at least two modes.")
DECOYS = True
COUNT = {"quick": 12000, "thorough": 180000}


@st.composite
def strategy_(draw, tier):
    c = draw(base(tier))
    c["cmodes"] = draw(gen.modes(c["res"], min(c["res"][:2])))
    c["crand"] = draw(st.one_of(st.none(), gen.seeds))
    l = draw(st.integers(0, c["res"][0]))
    c["ylm"] = [l, draw(st.integers(0, min(l, c["res"][1])))]
    return c


def strategy(tier):
    return strategy_(tier)


def corners(tier):
    out = []
    for v in VARIANTS:
        for r in corner_res():
            for y in ([r[0], min(r[0], r[1])], [r[0], 0], [min(r[0], 1), 0]):
                out.append({"variant": v, "res": r, "modes": [], "rand": 5, "exp": 0, "cmodes": [], "crand": 7, "ylm": y})
    return out


def run(case, ctx):
    s, h, sp, c, pc = setup(case, ctx)
    nl, nm, nlat, nphi = case["res"]
    i = s.call("sph_info", I=[h])
    check(list(i.I) == [nlat, nphi, nlat * nphi, len(sp.lm)], "sizes nlat,nphi,nSph,nYlm are %s" % list(i.I))
    close("theta", i.A[0], sp.th, 1e-12)
    close("phi", i.A[1], sp.ph, 1e-14)
    want = np.arange(nlat * nphi).reshape(nlat, nphi) if pc else np.arange(nlat * nphi).reshape(nphi, nlat).T
    check(np.array_equal(i.A[2].reshape(nlat, nphi), want), "angular index map differs from the documented layout")
    big = max(1.0, nl / 20.0) ** 2          # rounding of the nodes, amplified by high degrees
    a = amp(sp, c)
    f = ref.flat(sp.synth(c), pc)
    cz = np.stack([c.real, c.imag], 1).ravel()
    # real
    o, back = s.call("sph_to_Sph", I=[h], A=[cz]).A
    unchanged("coefficients", cz, back)
    close("synthesis", o, f, 2e-13 * a * big)
    o, back = s.call("sph_to_Ylm", I=[h], A=[f]).A
    unchanged("field", f, back)
    close("analysis", o, cz, 4e-13 * a * 4 * big)
    # complex, l <= nm (one layout for every SHTns version)
    L = min(nl, nm)
    r = np.random.default_rng(case["crand"] if case["crand"] is not None else 0)
    n2 = (nl + 1) ** 2
    z = np.zeros(n2, complex)
    if case["crand"] is not None:
        k = (L + 1) ** 2
        z[:k] = r.standard_normal(k) + 1j * r.standard_normal(k)
    for l, m, re, im in case["cmodes"]:
        z[l * (l + 1) - m] += re + 1j * im
        z[l * (l + 1) + m] += im - 2j * re
    F = np.zeros((nlat, nphi), complex)
    for l in range(L + 1):
        for m in range(-l, l + 1):
            q = z[l * (l + 1) + m]
            if q != 0:
                P = sp.P[sp.ix[(l, abs(m))]] * ((-1) ** m if m < 0 else 1)
                F += q * np.outer(P, np.exp(1j * m * sp.ph))
    az = float(np.sum(np.abs(z))) + 1e-300
    zz = np.stack([z.real, z.imag], 1).ravel()
    Ff = ref.flat(F, pc)
    ff = np.stack([Ff.real, Ff.imag], 1).ravel()
    o, back = s.call("sph_to_Sph_c", I=[h], A=[zz]).A
    unchanged("complex coefficients", zz, back)
    close("complex synthesis", o, ff, 4e-13 * az * (1 + nl) ** 0.5 * big)
    o, back = s.call("sph_to_Ylm_c", I=[h, n2], A=[ff]).A
    unchanged("complex field", ff, back)
    close("complex analysis", o, zz, 4e-13 * az * (1 + nl) * big)
    # basis field
    l, m = case["ylm"]
    e = np.zeros(len(sp.lm), complex)
    e[sp.ix[(l, m)]] = 1
    o = s.call("sph_ylm", I=[h, l, m]).A[0]
    close("Y_%d,%d" % (l, m), o, ref.flat(sp.synth(e), pc), 2e-13 * amp(sp, e) * big)
    return ["modes=%d" % min(3, int(np.count_nonzero(c)))]


def nontrivial(case, labels):
    return case["res"][0] >= 2 and not ("modes=0" in labels or "modes=1" in labels)

from hypothesis import strategies as st
import numpy as np
import fw, gen, ref
from fw import check, close, unchanged, VARIANTS

ASSUMPTIONS = ["SHTns is replaced by a stand-in written from its documentation (shtns_ref/)"]


@st.composite
def base(draw, tier, ladder=False):
    res = draw(gen.sphere_res(14 if tier == "quick" else 22))
    if draw(st.integers(0, 59)) == 31:      # as large as production runs
        nl = draw(st.integers(15, 40))
        nm = draw(st.one_of(st.integers(0, nl), st.just(nl)))
        res = [nl, nm, nl + draw(st.integers(1, 9)), 2 * nm + draw(st.integers(1, 9))]
    lmax = min(res[0], res[1]) if ladder else None
    md = draw(gen.modes(res, lmax))
    return {"variant": draw(st.sampled_from(VARIANTS)), "res": res, "modes": md,
            "rand": draw(st.one_of(st.none(), gen.seeds)) if md else draw(gen.seeds),
            "exp": draw(st.sampled_from([0, 0, 0, -30, 30]))}


def setup(case, ctx, lmax=None):
    s = ctx.server(case["variant"])
    res = case["res"]
    h = s.call("sph_new", I=res).I[0]
    sp = ref.Sph(*res)
    c = ref.coefs(sp, case["modes"], case["rand"], 1.0, lmax) * 10.0 ** case["exp"]
    pc = ref.is_phi(case["variant"])
    return s, h, sp, c, pc


def amp(sp, c):
    """Bound on |f| on the grid."""
    return float(np.sum(np.abs(c) * sp.fac * np.max(np.abs(sp.P), axis=1))) + 1e-300


def corner_res():
    return [[1, 0, 2, 1], [1, 1, 2, 3], [2, 1, 3, 4], [2, 2, 4, 8], [3, 3, 4, 7], [4, 2, 6, 8], [5, 5, 6, 11],
            [6, 4, 9, 12], [7, 7, 8, 16], [8, 6, 16, 16], [10, 10, 12, 24], [12, 9, 13, 19],
            [33, 33, 34, 67], [40, 12, 48, 32], [20, 20, 42, 64],
            [50, 4, 55, 12], [66, 3, 68, 9], [48, 48, 70, 97]]

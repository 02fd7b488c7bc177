from hypothesis import strategies as st
import numpy as np
import fw, gen, ref
from fw import check, close, unchanged, VARIANTS

ASSUMPTIONS = ["SHTns is replaced by a stand-in written from its documentation (shtns_ref/)"]


@st.composite
def gridspec(draw, variants, nx_lo=9, nx_hi=24, max_l=5, min_l=1):
    """variant, nx, angular resolution and radial range."""
    v = draw(st.sampled_from(variants))
    res = draw(gen.sphere_res(max_l, min_l=min_l))
    nx = draw(gen.size(nx_lo, nx_hi))
    nx, res = draw(gen.big3(nx, res, v))
    cl = draw(st.one_of(st.sampled_from([10.0, 20.0, 45.0, 1.0]), gen.fl(0.5, 100)))
    Rmin = draw(gen.fl(0.02, 0.9)) * cl
    if draw(st.integers(0, 2)) == 0:
        Rmax = min(cl, Rmin + draw(gen.fl(0.05, 1)) * (cl - Rmin))
        if not Rmax > Rmin * (1 + 1e-3):
            Rmax = cl
    else:
        Rmax = cl
    return {"variant": v, "res": res, "nx": nx, "rad": [cl, Rmin, Rmax]}


def open_grid(case, ctx):
    s = ctx.server(case["variant"])
    cl, Rmin, Rmax = case["rad"]
    h = s.call("grid_new", D=[cl, Rmin, Rmax], I=[case["nx"]] + case["res"]).I[0]
    g = ref.G3(case["variant"], cl, Rmin, Rmax, case["nx"], *case["res"])
    return s, h, g


RADS = [[20.0, 1.9, 20.0], [10.0, 0.8, 10.0], [1.0, 0.5, 1.0], [45.0, 1.91489, 30.0]]
RESS = [[1, 0, 2, 1], [1, 1, 3, 4], [2, 2, 4, 8], [3, 2, 5, 7], [4, 4, 6, 9], [3, 3, 7, 12]]


def grid_corners(nxs=(9, 10, 13, 16)):
    out = []
    i = 0
    for v in VARIANTS:
        for r in RESS:
            out.append({"variant": v, "res": r, "nx": nxs[i % len(nxs)], "rad": RADS[i % len(RADS)]})
            i += 1
    return out


# more grid points than fit in 16 bits
HUGE = [{"variant": "fd_lon", "res": [4, 4, 26, 40], "nx": 66, "rad": RADS[0]}, {"variant": "cheb_phi", "res": [3, 3, 30, 40], "nx": 60, "rad": RADS[0]},
        {"variant": "fd_phi", "res": [2, 2, 60, 100], "nx": 11, "rad": RADS[1]}, {"variant": "cheb_lon", "res": [6, 6, 25, 30], "nx": 90, "rad": RADS[0]}]

# more than 255 points in one direction
LONG = [{"variant": "fd_phi", "res": [2, 2, 3, 5], "nx": 1030, "rad": RADS[0]}, {"variant": "cheb_lon", "res": [2, 2, 3, 5], "nx": 260, "rad": RADS[1]},
        {"variant": "fd_lon", "res": [3, 2, 4, 7], "nx": 515, "rad": RADS[3]}, {"variant": "cheb_phi", "res": [5, 2, 270, 5], "nx": 10, "rad": RADS[0]},
        {"variant": "fd_phi", "res": [5, 3, 6, 270], "nx": 11, "rad": RADS[0]}, {"variant": "fd_lon", "res": [33, 33, 70, 80], "nx": 10, "rad": RADS[1]}]


def huge(tier):
    return [dict(c) for c in (HUGE[:2] if tier == "quick" else HUGE) + LONG]

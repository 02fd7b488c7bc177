from hypothesis import strategies as st
import numpy as np
import fw, gen, ref
from fw import check, close, unchanged, VARIANTS
from gridbase import *

RULE = ("grids nx 2..24, nl 1..5, nlat/nphi minimal to padded (3/32 of the cases: nx to 130, angular grids to 40x72 or l to 18) (nlat != nphi in most), 4 build variants, 4 kinds of radial "
        "range; full comparison of every coordinate table, then a history of 1-12 row/shell/slice reads and writes into "
        "pre-filled arrays against a numpy model, and R->r at up to 8 radii. Non-trivial: nlat != nphi and at least 3 row "
        "operations of which one writes.")
DECOYS = True
COUNT = {"quick": 12800, "thorough": 240000}


@st.composite
def strat(draw, tier):
    c = draw(gridspec(VARIANTS, 2, 24 if tier == "quick" else 40, 5 if tier == "quick" else 9))
    c["ops"] = draw(st.lists(st.tuples(st.integers(0, 7), st.booleans(), st.integers(0, 99), st.integers(0, 99)).map(list),
                             min_size=1, max_size=12))
    c["seed"] = draw(gen.seeds)
    c["fr"] = draw(st.lists(gen.fl(0, 1), min_size=0, max_size=8))
    return c


def strategy(tier):
    return strat(tier)


def corners(tier):
    out = []
    for c in grid_corners((2, 3, 5, 9)):
        nx, (nl, nm, nlat, nphi) = c["nx"], c["res"]
        ops = []
        for w in range(8):
            for stt in (False, True):
                ops += [[w, stt, 0, 0], [w, stt, 98, 98], [w, stt, 1, 2]]
        out.append(dict(c, ops=ops, seed=1, fr=[0.0, 0.5, 1.0]))
    # more points in radius and degree, radius and angle, or angle than fit in 16 bits
    ops = [[w, stt, a, b] for w in range(8) for stt in (False, True) for a, b in ((0, 0), (-1, -1), (2 ** 30 - 1, 2 ** 30 - 1))]
    big = [("fd_lon", 3300, [20, 0, 21, 1]), ("fd_phi", 3300, [20, 0, 21, 1]), ("cheb_lon", 1100, [60, 0, 61, 1]), ("cheb_phi", 300, [2, 2, 5, 60])]
    if tier != "quick":
        big += [("fd_lon", 2, [2, 2, 190, 370]), ("fd_phi", 3, [2, 2, 190, 370]), ("cheb_lon", 8, [90, 90, 91, 181]), ("fd_phi", 66000, [1, 0, 2, 1])]
    for i, (v, nx, res) in enumerate(big):
        out.append({"variant": v, "nx": nx, "res": res, "rad": [20.0, 1.9, 20.0], "ops": ops, "seed": i, "fr": [0.5]})
    return out


def run(case, ctx):
    s, h, g = open_grid(case, ctx)
    nx, (nl, nm, nlat, nphi) = case["nx"], case["res"]
    cl, Rmin, Rmax = case["rad"]
    N = g.N
    i = s.call("grid_info", I=[h])
    check(list(i.I) == [nx, nl, nm, nlat, nphi], "accessors nx,nl,nm,nlat,nphi are %s" % list(i.I))
    check(list(i.D) == [cl, Rmin, Rmax], "accessors cl,Rmin,Rmax are %s" % list(i.D))
    i3, i2, irt, irp, irl, R3, R3f, X, Xf, T, Tf, RL, RLf, NL, NLf = i.A
    # index maps: the documented layout
    if g.phi_contig:
        w2 = np.arange(nlat * nphi).reshape(nlat, nphi)
    else:
        w2 = np.arange(nlat * nphi).reshape(nphi, nlat).T
    w3 = np.arange(nx)[:, None, None] * (nlat * nphi) + w2[None]
    check(np.array_equal(i3.reshape(nx, nlat, nphi), w3), "3D index map is not the documented layout")
    check(np.array_equal(i2.reshape(nlat, nphi), w2), "angular index map is not the documented layout")
    for nm_, a, k in (("r-theta", irt, nlat), ("r-phi", irp, nphi), ("r-l", irl, nl)):
        check(np.array_equal(np.sort(a), np.arange(nx * k)), nm_ + " index map is not one-to-one onto 0..size-1")
    R, th, ph = np.meshgrid(g.R, g.sp.th, g.sp.ph, indexing="ij")
    sc = max(abs(Rmin), abs(Rmax))
    tolc = np.array([16 * ref.EPS * sc, 1e-12, 1e-14])
    C = np.stack([R, th, ph], -1)
    close("R_th_ph(ix,it,ip)", R3.reshape(nx, nlat, nphi, 3), C, tolc)
    XYZ = np.stack([R * np.sin(th) * np.cos(ph), R * np.sin(th) * np.sin(ph), R * np.cos(th)], -1)
    close("x_y_z(ix,it,ip)", X.reshape(nx, nlat, nphi, 3), XYZ, 2e-12 * sc)
    flat = w3.ravel()
    for nm_, byi, byt in (("R_th_ph", R3f, R3), ("x_y_z", Xf, X)):
        o = np.empty((N, 3))
        o[flat] = byt.reshape(-1, 3)
        check(fw.same_bits(o.ravel(), byi), nm_ + " by flat index differs from " + nm_ + " by triple")
    TT = np.stack(np.meshgrid(g.sp.th, g.sp.ph, indexing="ij"), -1)
    close("th_ph(it,ip)", T.reshape(nlat, nphi, 2), TT, np.array([1e-12, 1e-14]))
    o = np.empty((nlat * nphi, 2))
    o[w2.ravel()] = T.reshape(-1, 2)
    check(fw.same_bits(o.ravel(), Tf), "th_ph by flat index differs from th_ph by pair")
    wl = np.stack(np.meshgrid(g.R, np.arange(nl, dtype=float), indexing="ij"), -1)
    close("R_l(ix,il)", RL.reshape(nx, nl, 2), wl, np.array([16 * ref.EPS * sc, 0]))
    o = np.empty((nx * nl, 2))
    o[irl.astype(int)] = RL.reshape(-1, 2)
    check(fw.same_bits(o.ravel(), RLf), "R_l by flat index differs from R_l by pair")
    if g.cheb:
        wn = np.stack(np.meshgrid(np.arange(nx, dtype=float), np.arange(nl, dtype=float), indexing="ij"), -1)
        check(np.array_equal(NL.reshape(nx, nl, 2), wn), "n_l(ix,il) is not (ix,il)")
        o = np.empty((nx * nl, 2))
        o[irl.astype(int)] = NL.reshape(-1, 2)
        check(fw.same_bits(o.ravel(), NLf), "n_l by flat index differs from n_l by pair")
    # radius map
    fr = np.array(sorted(case["fr"]))
    Rs = np.append(Rmin + fr * (cl * (1 - 1e-8) - Rmin), cl)
    Rs = Rs[Rs > 0]
    r = s.call("grid_R_to_r", I=[h], A=[Rs]).A[0]
    q = 1.0 - Rs[:-1] / cl
    close("r(R)", r[:-1], Rs[:-1] / q, 8 * ref.EPS * Rs[:-1] / q ** 2)
    check(np.isfinite(r[-1]) and r[-1] >= 1e10 * min(cl, 1), "r at R=L is %r" % r[-1])
    check(bool(np.all(r[:-1] < r[-1])), "r(R) below the outer edge exceeds the value there")
    check(bool(np.all(np.diff(r[:-1])[np.diff(Rs[:-1]) > 1e-9 * cl] > 0)), "r(R) is not increasing")
    # row access
    rng = np.random.default_rng(case["seed"])
    f3 = rng.standard_normal(N)
    fl = rng.standard_normal(nx * nl)
    mirt, mirp, mirl = (a.astype(int) for a in (irt, irp, irl))
    lab = set()
    for w, st_, a, b in case["ops"]:
        if w == 0:
            a %= nlat; b %= nphi; ix = w3[:, a, b]; pos = np.arange(nx); size = nx
        elif w == 1:
            a %= nx; b %= nphi; ix = w3[a, :, b]; pos = np.arange(nlat); size = nlat
        elif w == 2:
            a %= nx; b %= nlat; ix = w3[a, b, :]; pos = np.arange(nphi); size = nphi
        elif w == 3:
            a %= nl; b = 0; ix = mirl.reshape(nx, nl)[:, a]; pos = np.arange(nx); size = nx
        elif w == 4:
            a %= nphi; b = 0; ix = w3[:, :, a].ravel(); pos = mirt; size = nx * nlat
        elif w == 5:
            a %= nlat; b = 0; ix = w3[:, a, :].ravel(); pos = mirp; size = nx * nphi
        elif w == 6:
            a %= nx; b = 0; ix = w3[a].ravel(); pos = w2.ravel(); size = nlat * nphi
        else:
            a %= nx; b = 0; st_ = True; ix = mirl.reshape(nx, nl)[a]; pos = np.arange(nl); size = nl
        big = fl if w in (3, 7) else f3
        name = "%s_row_%s" % ("set" if st_ else "get", ["R", "th", "ph", "n", "R_th", "R_ph", "th_ph", "l"][w])
        if st_:
            row = rng.standard_normal(size)
            o, back = s.call("grid_row", I=[h, w, 1, a, b], A=[row, big]).A
            want = big.copy()
            want[ix] = row[pos]
            unchanged("input of " + name, row, back)
            check(fw.same_bits(o, want), lambda: "%s(%d,%d): %s" % (name, a, b, fw._where(want, o)))
            if w in (3, 7):
                fl = o
            else:
                f3 = o
            lab.add("write")
        else:
            row = rng.standard_normal(size)
            o, back = s.call("grid_row", I=[h, w, 0, a, b], A=[big, row]).A
            want = row.copy()
            want[pos] = big[ix]
            unchanged("input of " + name, big, back)
            check(fw.same_bits(o, want), lambda: "%s(%d,%d): %s" % (name, a, b, fw._where(want, o)))
    return sorted(lab) + ["nlat<nphi" if nlat < nphi else "nlat>nphi" if nlat > nphi else "nlat=nphi"]


def nontrivial(case, labels):
    return len(case["ops"]) >= 3 and "write" in labels and "nlat=nphi" not in labels

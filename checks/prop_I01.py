from hypothesis import strategies as st
import numpy as np
import fw, gen, ref
from fw import check, close, unchanged, VARIANTS
from kerrbase import *

RULE = ("grids nx 9..40 (80), nl 1..5 (9), 4 variants, R=L or short of it; pulses with bounds inside, straddling or outside the grid, inside the horizon or "
        "covering the outer edge, (l,m) up to the highest, any sign of amplitude, direction words incl. near misses of the two special ones; arrays holding zeros, old data or NaN beforehand; field and momentum compared with the analytic "
        "bump times scipy harmonics. Corner cases with more points than fit in 16 bits. Non-trivial: at least two shells inside the support.")
DECOYS = True
COUNT = {"quick": 16000, "thorough": 300000}


@st.composite
def words(draw):
    """Words near the two special ones."""
    w = draw(st.sampled_from(["ingoing", "outgoing"]))
    k = draw(st.sampled_from(["suffix", "prefix", "case", "cut", "drop", "any"]))
    if k == "suffix":
        w += draw(st.sampled_from(["_wave", "s", "2", "-outgoing", "-ingoing", "."]))
    elif k == "prefix":
        w = draw(st.sampled_from(["not_", "x", "outgoing_", "ingoing_"])) + w
    elif k == "case":
        w = draw(st.sampled_from([w.upper(), w.capitalize(), w[:-1] + "G"]))
    elif k == "cut":
        w = w[:draw(st.integers(1, len(w) - 1))]
    elif k == "drop":
        w = w[draw(st.integers(1, len(w) - 1)):]
    else:
        w = draw(st.text("abingout_-", min_size=1, max_size=12))
    return w


@st.composite
def strat(draw, tier):
    c = draw(kgrid(9, 40 if tier == "quick" else 80, 5 if tier == "quick" else 9))
    cl, R0, R1 = c["rad"]
    r0 = R0 / (1 - R0 / cl)
    kind = draw(st.sampled_from(["in", "in", "in", "in", "wide", "wide", "outer", "outer", "far", "inner", "empty", "reversed"]))
    M = c["M"]
    if kind == "in":
        rl = r0 + M * draw(gen.fl(0, 5)); ru = rl + M * draw(gen.fl(1, 30))
    elif kind == "wide":
        rl = -M * draw(gen.fl(0, 3)); ru = r0 + M * draw(gen.fl(0.5, 10))
    elif kind == "outer":
        rl = r0 + M * draw(gen.fl(0, 30)); ru = rl + M * draw(gen.fl(100, 1e5))
    elif kind == "far":
        rl = M * draw(gen.fl(100, 1e4)); ru = rl * draw(gen.fl(1.1, 3))
    elif kind == "inner":
        rl = r0 * draw(gen.fl(0.2, 1.0)); ru = r0 * draw(gen.fl(1.05, 2))
    elif kind == "empty":
        rl = r0 * 0.2; ru = r0 * 0.9
    else:
        ru = r0 + M; rl = ru + M * draw(gen.fl(0, 5))
    c["rlu"] = [rl, ru]
    l = draw(st.integers(0, c["res"][0]))
    c["lm"] = [l, draw(st.integers(0, min(l, c["res"][1])))]
    c["amp"] = draw(st.one_of(gen.fl(0.01, 10), st.sampled_from([1.0, -0.5, 0.0, 1e-10])))
    c["dir"] = draw(st.sampled_from(["ingoing", "outgoing", "ingoing", "outgoing", "time_symmetric", ""])) or draw(words())
    c["dirty"] = draw(st.integers(0, 2))      # what the arrays hold beforehand
    return c


def strategy(tier):
    return strat(tier)


def corners(tier):
    out = []
    dirs = ["ingoing", "outgoing", "time_symmetric", "In"]
    for i, c in enumerate(corner_states()):
        c = {k: c[k] for k in ("variant", "res", "nx", "rad", "M", "a")}
        r0 = c["rad"][1] / (1 - c["rad"][1] / c["rad"][0])
        nl, nm = c["res"][:2]
        for j, (rl, ru) in enumerate([(-r0, 3 * r0), (1.5 * r0, 10 * r0), (2 * r0, 1e4 * r0)]):
            out.append(dict(c, nx=24, rlu=[rl, ru], lm=[nl, min(nl, nm)] if j else [j, 0], amp=0.5, dir=dirs[(i + j) % 4]))
            out.append(dict(c, nx=16, rad=[c["rad"][0], c["rad"][1], 0.6 * c["rad"][0]], rlu=[rl, ru], lm=[1, min(1, nm)], amp=-2.0, dir=dirs[(i + j) % 4]))
    for i, c in enumerate(huge_states(tier)):
        r0 = c["rad"][1] / (1 - c["rad"][1] / c["rad"][0])
        c = {k: c[k] for k in ("variant", "res", "nx", "rad", "M", "a")}
        out.append(dict(c, rlu=[1.1 * r0, 12 * r0], lm=[2, 1], amp=0.7, dir=dirs[i % 3]))
    return out


def run(case, ctx):
    s, h, g = open_grid(case, ctx)
    rl, ru = case["rlu"]
    l, m = case["lm"]
    amp = case["amp"]
    P = new_params(s, ctx, grid_params(case, rl=float(rl), ru=float(ru), l_ang=l, m_ang=m, amp=float(amp), initial_data_direction=case["dir"]))
    z = {0: lambda: np.zeros(g.N), 1: lambda: np.full(g.N, np.nan), 2: lambda: 3.0 + np.cos(np.arange(g.N))}[case.get("dirty", 0)]()
    fo, po = (g.unflat(v) for v in s.call("id", I=[P, h], A=[z, -z]).A)
    check(bool(np.all(np.isfinite(fo)) and np.all(np.isfinite(po))), "initial data is not finite")
    r = radii(g)
    w = max(abs(ru - rl), 1e-14)
    ins = (r > rl) & (r < ru) & np.isfinite(r)
    b, db = np.zeros(g.nx), np.zeros(g.nx)
    x, y = (r[ins] - rl) / w, (ru - r[ins]) / w
    with np.errstate(all="ignore"):
        E = np.exp(-1 / x) * np.exp(-2 / y)
        b[ins] = x ** 4 * y ** 4 * E
        db[ins] = (4 * x ** 3 * y ** 4 - 4 * x ** 4 * y ** 3 + x ** 2 * y ** 4 - 2 * x ** 4 * y ** 2) * E / w
    e = np.zeros(len(g.sp.lm), complex)
    e[g.sp.ix[(l, m)]] = 1
    Y = g.sp.synth(e)
    raw = b[:, None, None] * Y[None]
    mx = float(np.max(np.abs(raw)))
    sg = {"ingoing": 1.0, "outgoing": -1.0}.get(case["dir"], 0.0)
    # points clearly outside the support
    d = 1e-9 * np.maximum(np.abs(r), w)
    with np.errstate(invalid="ignore"):
        out = ~np.isfinite(r) | (r <= rl - d) | (r >= ru + d)
    check(not np.any(fo[out]) and not np.any(po[out]), "field or momentum nonzero outside the support")
    lab = [case["dir"] if sg or case["dir"] == "time_symmetric" else "other word", "inside=%s" % min(int(np.sum(ins)), 2)]
    if mx > 1e-13:
        n = amp / mx
        top = float(np.max(np.abs(fo)))
        close("largest magnitude", top, abs(amp), 1e-13 * abs(amp))
        cond = 64 * ref.EPS * np.where(np.isfinite(r), np.abs(r), 0) / np.maximum(1 - g.R / g.cl, 1e-15) / w
        with np.errstate(all="ignore"):
            xx = np.where(ins, (r - rl) / w, 1.0)
            yy = np.where(ins, (ru - r) / w, 1.0)
            sens = b * (4 / xx + 4 / yy + 1 / xx ** 2 + 2 / yy ** 2)
            sens2 = sens * (4 / xx + 4 / yy + 1 / xx ** 2 + 2 / yy ** 2 + 4) / w
        sens = np.where(np.isfinite(sens), sens, 0)
        sens2 = np.where(np.isfinite(sens2), sens2, 0)
        Ym = float(np.max(np.abs(Y)))
        tf = abs(n) * Ym * (cond * sens + np.max(cond * sens) * b / max(np.max(b), 1e-300)) + 1e-11 * abs(amp)
        close("initial field", fo, n * raw, (tf[:, None, None] * np.ones_like(raw)))
        tp = abs(n) * Ym * (cond * sens2 + np.max(cond * sens) * np.abs(db) / max(np.max(b), 1e-300)) + 1e-11 * abs(n) * Ym * float(np.max(sens / w))
        close("initial momentum", po, sg * n * db[:, None, None] * Y[None], tp[:, None, None] * np.ones_like(raw))
        lab.append("scaled")
        k = 0 if not g.cheb else g.nx - 1
        if ins[k]:
            lab.append("inner end in support")
        if ins[g.nx - 1 - k]:
            lab.append("outer end in support")
    elif mx == 0:
        # (a bump that underflows may leave a momentum at the edge of the number range)
        check(float(np.max(np.abs(fo))) < 1e-290 and float(np.max(np.abs(po))) < 1e-290, "field without support is nonzero")
    return lab


def nontrivial(case, labels):
    return "scaled" in labels and "inside=2" in labels

from hypothesis import strategies as st
import os
import numpy as np
import fw, gen, ref
from fw import check, close, unchanged, VARIANTS
from gridbase import *

RULE = ("grids nx 2..16, nl 1..4 in 4 variants; a history of 1-12 writes (raw column, Cartesian dump with value and radius windows placed on, between "
        "and beyond the data, angular spectrum, radial-angular spectrum, with and without header) to a few file names so that files are appended "
        "to, a sixth of the arrays with values that are not finite, signed zeros, subnormal or huge, next to pre-existing files, some into missing directories or onto a directory; after every write the whole directory is compared "
        "with a model. Corner cases with more rows than fit in 16 bits. Non-trivial: at least 3 writes of which one appends to an existing file or is filtered.")
COUNT = {"quick": 7200, "thorough": 90000}

NAMES = ["f", "rho", "a_b", "f_RPsl", "x.y", "sub/f", "with space", "missing/f", "adir"]
ITMS = [0, 1, 2, 10, 7, 123456, 99]
POKE = [float("nan"), float("inf"), -float("inf"), -0.0, 0.0, 5e-324, -2.5e-310, 1e308, 1.0, 100000.0, 1e16, 0.1]


@st.composite
def wop(draw):
    k = draw(st.sampled_from(["csv", "xyz", "xyz", "R", "R", "n"]))
    o = {"k": k, "name": draw(st.sampled_from(NAMES[:3] + NAMES)), "itm": draw(st.sampled_from(ITMS[:2] + ITMS)),
         "hdr": draw(st.booleans()), "data": draw(gen.data())}
    if k == "xyz":
        o["win"] = [draw(st.sampled_from(["none", "zero", "datum", "mid", "all"])), draw(st.sampled_from(["none", "datum", "mid"])),
                    draw(st.sampled_from(["none", "mid", "all"])), draw(st.sampled_from(["none", "mid"])), draw(gen.fl(0, 1)), draw(gen.fl(0, 1))]
    if k == "csv":
        o["n"] = draw(st.sampled_from([0, 1, 2, 7, 50]))
    if draw(st.integers(0, 5)) == 3:
        o["poke"] = draw(st.lists(st.tuples(st.integers(0, 10 ** 6), st.integers(0, len(POKE) - 1)).map(list), min_size=1, max_size=4))
    return o


@st.composite
def strat(draw, tier):
    c = draw(gridspec(VARIANTS, 2, 16 if tier == "quick" else 33, 4 if tier == "quick" else 7))
    c["ops"] = draw(st.lists(wop(), min_size=1, max_size=8 if tier == "quick" else 12))
    return c


def strategy(tier):
    return strat(tier)


def corners(tier):
    out = []
    kinds = ["rand", "mixed", "const", "sparse", "spike"]
    for i, c in enumerate(grid_corners((2, 3, 5, 9))):
        ops = []
        for j, k in enumerate(["csv", "xyz", "R", "n", "xyz", "R"]):
            o = {"k": k, "name": NAMES[j % 3 if i % 2 else 0], "itm": [0, 1][j % 2] if i % 3 else 0, "hdr": (i + j) % 2 == 0,
                 "data": {"kind": kinds[(i + j) % 5], "seed": i, "exp": [0, -8, 8][(i + j) % 3], "at": [0, 5, 11]}}
            if k == "xyz":
                o["win"] = [["none", "zero", "datum"][i % 3], ["none", "datum"][j % 2], ["none", "mid"][(i + j) % 2], ["none", "mid"][i % 2], 0.3, 0.8]
            if k == "csv":
                o["n"] = 7
            ops.append(o)
        ops.append(dict(ops[2], name="missing/f"))
        ops.append(dict(ops[0], name="adir", itm=0))
        ops.append(ops[0])
        out.append(dict(c, ops=ops))
    for i, c in enumerate(huge(tier)):          # more rows than fit in 16 bits
        o = {"name": NAMES[0], "itm": 0, "hdr": i % 2 == 0, "data": {"kind": "rand", "seed": i, "exp": 0, "at": [0]}}
        out.append(dict(c, ops=[dict(o, k="xyz", win=["none", "none", "none", "none", 0.3, 0.8]), dict(o, k="csv", n=70001), dict(o, k="R"), dict(o, k="n")]))
    for v, nx in (("fd_lon", 3300),) if tier == "quick" else (("fd_lon", 3300), ("fd_phi", 3200)):
        o = {"name": NAMES[0], "itm": 1, "hdr": False, "data": {"kind": "rand", "seed": 4, "exp": 0, "at": [0]}}
        out.append({"variant": v, "res": [20, 0, 21, 1], "nx": nx, "rad": RADS[0], "ops": [dict(o, k="R"), dict(o, k="R", hdr=True)]})
    return out


def listing(d):
    out = {}
    for b, ds, fs in os.walk(d):
        for x in ds:
            out[os.path.relpath(os.path.join(b, x), d) + "/"] = b""
        for x in fs:
            with open(os.path.join(b, x), "rb") as f:
                out[os.path.relpath(os.path.join(b, x), d)] = f.read()
    return out


HDR = {"xyz": "x,y,z,value", "R": "R,l,log(value)", "n": "n,l,log(value)"}


def tolerances(rows):
    """One unit of the sixteenth digit; nothing for numbers that are not finite."""
    return np.where(np.isfinite(rows), 8e-16 * np.abs(rows), 0.0)


def check_text(name, new, hdr, rows, optional, tols):
    """new: text added; rows: [n, k] expected numbers; optional: bool per row; tols: absolute tolerance per entry."""
    check(new == "" or new.endswith("\n"), name + ": last row is not terminated")
    lines = new.split("\n")[:-1]
    if hdr is not None:
        check(bool(lines) and lines[0].strip() == hdr, lambda: "%s: header is %r, expected %r" % (name, lines[:1], hdr))
        lines = lines[1:]
    k = rows.shape[1]
    try:
        got = np.array([[float(x) for x in l.split(",")] for l in lines], float).reshape(len(lines), k)
    except ValueError:
        bad = [l for l in lines if l.count(",") != k - 1 or not all(_num(x) for x in l.split(","))]
        fw.fail("%s: rows are not %d numbers: %r" % (name, k, bad[:3]))
    i = j = 0
    if len(rows) > 5000 and got.shape == rows.shape:
        with np.errstate(invalid="ignore"):
            if bool(np.all((got == rows) | (np.abs(got - rows) <= tols) | np.isinf(tols))):
                return
    with np.errstate(invalid="ignore"):
        while j < len(rows):
            ok = i < len(got) and bool(np.all((got[i] == rows[j]) | (np.isnan(got[i]) & np.isnan(rows[j])) | (np.abs(got[i] - rows[j]) <= tols[j]) | np.isinf(tols[j])))
            if ok:
                i += 1
            elif not optional[j]:
                fw.fail("%s: row %d is %s, expected %s (file has %d rows, expected %d)"
                        % (name, i, lines[i] if i < len(lines) else "missing", rows[j].tolist(), len(got), int(np.sum(~optional))))
            j += 1
    check(i == len(got), lambda: "%s: unexpected extra row %r" % (name, lines[i]))


def _num(x):
    try:
        float(x)
        return True
    except ValueError:
        return False


def run(case, ctx):
    s, h, g = open_grid(case, ctx)
    info = s.call("grid_info", I=[h])
    XYZ = info.A[8].reshape(-1, 3)
    RL = info.A[12].reshape(-1, 2)
    NL = info.A[14].reshape(-1, 2)
    N = g.N
    d = ctx.tmp("o")
    os.mkdir(os.path.join(d, "sub"))
    for it in ITMS:
        for suf in ("", "_RPsl", "_XYZ", "_NPsl"):
            if it in (0, 1):
                os.mkdir(os.path.join(d, "adir%s_%d.csv" % (suf, it)))
    with open(os.path.join(d, "f_0.csv.old"), "w") as f:
        f.write("keep me\n")
    with open(os.path.join(d, "f_RPsl_1.csv"), "w") as f:
        f.write("earlier content\n")
    with open(os.path.join(d, "rho_0.csv"), "w") as f:
        f.write("1.5\n")
    model = listing(d)
    lab = set()
    mag = np.sqrt(np.sum(XYZ ** 2, 1))
    for o in case["ops"]:
        k = o["k"]
        if k == "n" and not g.cheb:
            k = "R"
        name = os.path.join(d, o["name"])
        it = o["itm"]
        n = o["n"] if k == "csv" else N
        with np.errstate(over="ignore"):
            v = gen.make(o["data"], n) if n else np.zeros(0)
        for i, q in o.get("poke", []):
            if n:
                v[i % n] = POKE[q]
                lab.add("special value")
        optional = None
        if k == "csv":
            suf = ""
            s.call("csv", I=[it], S=[name], A=[v])
            rows = v[:, None]
            tols = tolerances(rows)
            hdr = None
        elif k == "xyz":
            suf = "_XYZ"
            av = np.sort(np.abs(v))
            w = o["win"]
            x, y = sorted((w[4], w[5]))
            lo = {"none": -1.0, "zero": 0.0, "all": 1e300}.get(w[0], av[int(x * (N - 1))])
            if w[0] == "mid":
                lo *= 0.999
            hi = {"none": 1e300}.get(w[1], av[int(y * (N - 1))])
            if w[1] == "mid":
                hi *= 1.001
            sm = np.unique(mag)
            r1 = {"none": -1.0, "all": 1e300}.get(w[2], 0)
            r2 = {"none": 1e300}.get(w[3], 0)
            if w[2] == "mid":
                r1 = 0.5 * (g.R[int(x * (g.nx - 2))] + g.R[int(x * (g.nx - 2)) + 1])
            if w[3] == "mid":
                q = int(y * (g.nx - 2))
                r2 = 0.5 * (g.R[q] + g.R[q + 1])
            s.call("csv_xyz", I=[h, o["hdr"], it], D=[lo, hi, r1, r2], S=[name], A=[v])
            keep = (np.abs(v) > lo) & (np.abs(v) < hi) & (mag > r1) & (mag < r2)
            edge = (np.abs(mag - r1) < 1e-12 * mag) | (np.abs(mag - r2) < 1e-12 * mag)
            sel = keep | (edge & (np.abs(v) > lo) & (np.abs(v) < hi))
            rows = np.concatenate([XYZ, v[:, None]], 1)[sel]
            optional = edge[sel]
            tols = tolerances(rows)
            hdr = HDR["xyz"] if o["hdr"] else None
            if 0 < np.sum(keep) < N:
                lab.add("filtered")
        else:
            suf = {"R": "_RPsl", "n": "_NPsl"}[k]
            with np.errstate(all="ignore"):
                p = s.call("grid_op", I=[h, 6 if k == "R" else 7], A=[v, np.zeros(g.nx * g.nl)]).A[0]
                s.call("csv_" + k, I=[h, o["hdr"], it], S=[name], A=[v])
                lg = np.where(p < 1e-16, -16.0, np.log10(p))
            rows = np.concatenate([RL if k == "R" else NL, lg[:, None]], 1)
            tols = tolerances(rows)
            tols[:, 2] += 4e-15 * (1 + np.abs(rows[:, 2]))
            nanr = np.isnan(rows[:, 2])
            tols[nanr, 2] = np.inf
            if nanr.any():
                lab.add("undefined power")
                rows[nanr, 2] = 0
            hdr = HDR[k] if o["hdr"] else None
            if np.any(p < 1e-16):
                lab.add("floored")
        rel = o["name"] + "%s_%d.csv" % (suf, it)
        what = "%s to %s" % (k, rel)
        now = listing(d)
        unwr = o["name"] == "missing/f" or (o["name"] == "adir" and it in (0, 1))
        out = s.stdout()
        if unwr:
            check(now == model, lambda: "unwritable target: directory changed after " + what)
            check(os.path.basename(rel) in out and "ERROR" in out, lambda: "unwritable target %s is not reported (%r)" % (rel, out[-300:]))
            lab.add("unwritable")
        else:
            check("ERROR" not in out, lambda: "write to %s reports %r" % (rel, out[-300:]))
            check(rel in now, lambda: "%s: no such file; new files: %s" % (what, sorted(set(now) - set(model))))
            others = [x for x in set(now) | set(model) if x != rel and now.get(x) != model.get(x)]
            check(not others, lambda: "%s changed other files: %s" % (what, others))
            old = model.get(rel, b"")
            check(now[rel][:len(old)] == old, what + ": earlier content was altered")
            if old:
                lab.add("append")
            if optional is None:
                optional = np.zeros(len(rows), bool)
            check_text(what, now[rel][len(old):].decode(), hdr, rows, optional, tols)
            lab.add(k)
        s.call("trunc")
        model = now
    return sorted(lab)


def nontrivial(case, labels):
    return len(case["ops"]) >= 3 and ("append" in labels or "filtered" in labels)

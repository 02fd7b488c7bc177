from hypothesis import strategies as st
import os, re, shutil, subprocess
import numpy as np
import build as B
import fw, gen, ref
from fw import check, close, VARIANTS
from kerrbase import *
from prop_E03 import stable_dt
from solver import Solver

RULE = ("whole runs of the built executables in 4 variants (optimised, sanitized): random mass, spin, couplings, grid (nx 10..24, l up to 3), pulse, direction, "
        "0-16 steps (1/40: up to 560 steps and snapshots, 1/40: nx up to 130, 1/40: unstable steps, 1/120: up to 1300 steps or nx up to 1025), save interval 1..20, 1-4 threads. The output directory must hold exactly the expected files; every snapshot and progress line is compared "
        "with a dense numpy solver; the run is repeated (also beside three others started from the same directory, from inside the output directory, with relative paths, directories and parameter files with odd names, or into a directory that holds earlier files or all files of the first run) and must give the same bytes. A tenth of the cases runs the finite-difference and the Chebyshev "
        "executable on one resolved problem and compares the two. Corner cases with more points than fit in 16 bits. Non-trivial: at least two snapshots and 2 steps of a moving field, or a resolved pair.")
COUNT = {"quick": 2400, "thorough": 16000}
SAN_FRACTION = 0.3
TARGETS = [(v, f, "main") for v in VARIANTS for f in ("opt", "san")]
ASSUMPTIONS = ["SHTns is replaced by a stand-in written from its documentation (shtns_ref/)",
               "the reference solver drops the two highest Chebyshev modes in each radial derivative, as the library's derivative does",
               "runs with nm < nl are compared for free fields with l <= nm only (energy density without spin)"]
BINS = {}


def prepare(bins, scratch):
    BINS.update(bins)


@st.composite
def strat(draw, tier):
    big = tier == "thorough"
    c = draw(kgrid(10, 24 if big else 18, 3, outside=True, big=False))
    nl = draw(st.integers(1, 4 if big else 3))
    c["res"] = [nl, nl, nl + draw(st.integers(1, 4)), 2 * nl + draw(st.integers(1, 4))]
    c["q"] = draw(coupling())
    if draw(st.booleans()):
        c["q"] = dict.fromkeys(QKEYS, 0.0)
        c["q"]["k0"] = 1.0
    r0 = c["rad"][1] / (1 - c["rad"][1] / c["rad"][0])
    kind = draw(st.sampled_from(["in", "in", "wide", "wide", "wide", "in", "outer", "empty"]))
    M = c["M"]
    rl, ru = {"in": lambda: (r0 + M * 0.5, r0 + M * draw(gen.fl(8, 60))), "wide": lambda: (-r0, r0 + M * draw(gen.fl(5, 100))),
              "outer": lambda: (r0 + M, M * draw(gen.fl(1e3, 1e6))), "empty": lambda: (0.1 * r0, 0.9 * r0)}[kind]()
    c["rlu"] = [rl, ru]
    l = draw(st.one_of(st.integers(0, nl - 1), st.integers(0, nl - 1), st.integers(0, nl)))
    c["lm"] = [l, draw(st.integers(0, l))]
    c["amp"] = draw(st.sampled_from([0.3, 0.1, -0.2, 1e-3]))
    c["dir"] = draw(st.sampled_from(["ingoing", "outgoing", "time_symmetric", "other"]))
    c["cfl"] = draw(gen.fl(0.1, 1.0))
    c["nt"] = draw(st.one_of(st.integers(3, 10), st.integers(4, 16), st.integers(4, 16), st.integers(0, 20)))
    c["save"] = draw(st.one_of(st.integers(1, 3), st.integers(1, 4), st.integers(1, 20)))
    c["threads"] = [draw(st.integers(1, 4)), draw(st.integers(1, 4))]
    c["pair"] = draw(st.integers(0, 9)) == 0
    if draw(st.integers(0, 7)) == 5:        # fewer m than l: free fields, on which the truncation does not matter
        nl = draw(st.integers(2, 5))
        nm = draw(st.integers(0, nl - 1))
        c["res"] = [nl, nm, nl + draw(st.integers(1, 4)), 2 * nm + draw(st.integers(1, 5))]
        c["q"] = dict.fromkeys(QKEYS, 0.0)
        c["q"]["k0"] = draw(st.sampled_from([1.0, 2.0]))
        l = draw(st.integers(0, min(nm, nl - 1)))
        c["lm"] = [l, draw(st.integers(0, l))]
    odd = draw(st.integers(0, 39))
    if odd == 7:                # many snapshots
        c["nx"], c["res"], c["pair"] = draw(st.integers(10, 12)), [1, 1, 2, 3], False
        c["save"] = draw(st.sampled_from([1, 1, 1, 2]))
        c["nt"] = draw(st.one_of(st.integers(90, 230), st.integers(90, 230), st.integers(250, 560)))
        c["lm"] = [min(c["lm"][0], 1), min(c["lm"][1], 1, c["lm"][0])]
    elif odd == 33:             # an unstable run still writes every snapshot
        c["pair"], c["cfl"] = False, draw(st.one_of(gen.fl(3, 30), gen.fl(30, 1000)))
        c["nt"], c["save"] = draw(st.integers(10, 60)), draw(st.integers(1, 5))
    elif odd == 17:             # long radial grid
        c["nx"], c["res"], c["pair"] = draw(st.integers(30, 130)), [1, 1, 2, 3], False
        c["lm"] = [min(c["lm"][0], 1), min(c["lm"][1], 1, c["lm"][0])]
        c["nt"], c["save"] = draw(st.integers(3, 5)), 1
    elif odd == 27 and draw(st.integers(0, 2)) == 1:      # long run, or a grid as long as in production
        c["res"], c["pair"] = [1, 1, 2, 3], False
        c["lm"] = [min(c["lm"][0], 1), min(c["lm"][1], 1, c["lm"][0])]
        if draw(st.booleans()):
            c["nx"], c["nt"], c["save"] = draw(st.integers(10, 12)), draw(st.integers(500, 1300)), draw(st.sampled_from([100, 128, 250, 333, 500]))
        else:
            c["nx"] = draw(st.sampled_from([200, 256, 257, 300, 512, 513, 777, 1025])) if c["variant"].startswith("fd") else draw(st.sampled_from([150, 200, 256, 257]))
            c["nt"], c["save"] = draw(st.integers(2, 4)), 1
    if c["pair"]:
        c["nx"] = draw(st.integers(24, 40))
        c["rlu"] = [-2 * r0, r0 + M * draw(gen.fl(20, 1000))]
        c["nt"] = draw(st.integers(2, 7))
        c["save"] = 1
    return c


def strategy(tier):
    return strat(tier)


def corners(tier):
    out = []
    for i, v in enumerate(VARIANTS * 6):
        q = dict(dict.fromkeys(QKEYS, 0.0), k0=1.0)
        if i % 3 == 1:
            q[QKEYS[i % 7]] += 0.7
        nl = 1 + i % 3
        out.append({"variant": v, "res": [nl, nl, nl + 2, 2 * nl + 2], "nx": [10, 13, 17][i % 3], "rad": [20.0, [1.9, 1.6][i % 2], [20.0, 12.0][i % 4 == 3]], "M": 1.0,
                    "a": [0.7, 0.0, -0.5][i % 3], "q": q, "rlu": [-1.0, 20.0 + i], "lm": [i % nl, (i // 2) % (i % nl + 1)], "amp": 0.2,
                    "dir": ["ingoing", "outgoing", "time_symmetric", "other"][(i // 4) % 4], "cfl": 0.6, "nt": [7, 13, 1, 0, 2, 10][i // 4],
                    "save": [1, 3, 1, 1, 2, 4][i // 4], "threads": [1, 3], "pair": i % 12 == 0})
    for i, v in enumerate(VARIANTS):
        out.append({"variant": v, "res": [4, 2, 7, 6 + i % 2], "nx": 12, "rad": [20.0, 1.9, 20.0], "M": 1.0, "a": [0.5, 0.0][i // 2], "q": dict(dict.fromkeys(QKEYS, 0.0), k0=1.0),
                    "rlu": [-1.0, 20.0], "lm": [2 - i % 2, 1], "amp": 0.2, "dir": "ingoing", "cfl": 0.6, "nt": 7, "save": 2, "threads": [1, 3], "pair": False})
    for i, v in enumerate(("fd_lon", "cheb_phi") if tier == "thorough" else ("fd_phi",)):      # more grid points than fit in 16 bits
        out.append({"variant": v, "res": [2, 2, 26, 40], "nx": 66 - i, "rad": [20.0, 1.9, 20.0], "M": 1.0, "a": 0.5, "q": dict(dict.fromkeys(QKEYS, 0.0), k0=1.0),
                    "rlu": [-1.0, 20.0], "lm": [1, 1], "amp": 0.2, "dir": "ingoing", "cfl": 0.6, "nt": 3, "save": 1, "threads": [4, 1], "pair": False})
    for v, res, nx in (("fd_phi", [2, 2, 262, 5], 10), ("cheb_lon", [2, 1, 3, 262], 10), ("cheb_phi", [1, 1, 2, 3], 260)):      # more than 255 points in one direction
        out.append({"variant": v, "res": res, "nx": nx, "rad": [20.0, 1.9, 20.0], "M": 1.0, "a": 0.5, "q": dict(dict.fromkeys(QKEYS, 0.0), k0=1.0),
                    "rlu": [-1.0, 20.0], "lm": [1, 1], "amp": 0.2, "dir": "ingoing", "cfl": 0.6, "nt": 4, "save": 1, "threads": [2, 1], "pair": False})
    for i, v in enumerate(("fd_lon", "cheb_lon")):
        out.append({"variant": v, "res": [2, 2, 4, 6], "nx": 12, "rad": [20.0, 1.9, 20.0], "M": 1.0, "a": 0.5, "q": dict(dict.fromkeys(QKEYS, 0.0), k0=1.0, V2=1.0),
                    "rlu": [-1.0, 20.0], "lm": [1, 1], "amp": 0.3, "dir": "ingoing", "cfl": [30.0, 300.0][i], "nt": 60, "save": 2, "threads": [2, 1], "pair": False})
    for v, nt, save in (("fd_phi", 1050, 300), ("cheb_lon", 1030, 170)) + ((("cheb_phi", 2100, 700), ("fd_lon", 5000, 900)) if tier == "thorough" else ()):     # many steps, few snapshots
        out.append({"variant": v, "res": [1, 0, 2, 1], "nx": 10, "rad": [20.0, 1.9, 20.0], "M": 1.0, "a": 0.5, "q": dict(dict.fromkeys(QKEYS, 0.0), k0=1.0),
                    "rlu": [-1.0, 20.0], "lm": [0, 0], "amp": 0.1, "dir": "ingoing", "cfl": 0.6, "nt": nt, "save": save, "threads": [1, 1], "pair": False})
    for v, nt in (("fd_lon", 262), ("cheb_phi", 529 if tier == "thorough" else 259)):     # more snapshots than fit a byte
        out.append({"variant": v, "res": [1, 1, 2, 3], "nx": 10, "rad": [20.0, 1.9, 20.0], "M": 1.0, "a": 0.5, "q": dict(dict.fromkeys(QKEYS, 0.0), k0=1.0),
                    "rlu": [-1.0, 20.0], "lm": [0, 0], "amp": 0.1, "dir": "ingoing", "cfl": 0.6, "nt": nt, "save": 1, "threads": [1, 2], "pair": False})
    return out


NAMES = ["out", "out", "run1.", "a..", ".hidden", "x=1,y=2", "two words", "%d%s", "f_RPsl_0.csv", "params.txt.d", "L" * 180, "d\u00e9j\u00e0", "~", "$HOME", "out/deep/er", "0"]
PNAMES = ["params.txt", "params.txt", "params", "set up.dat", "p.txt.", "%s.txt"]


def launch(ctx, variant, text, threads, how=0, earlier=None, name="out", pname="params.txt", mate=None):
    """how: 0 absolute paths, 1 from inside the output directory as the launcher does, 2 and 3 paths relative to somewhere else,
    4 a directory with an odd name that holds other files, among them an earlier snapshot,
    5 the same after an earlier run that wrote all its snapshots there."""
    fl = ctx.flavour
    d = ctx.tmp("run")
    if how in (4, 5):
        d = os.path.join(d, "run 1.5_f_0.csv")
        os.mkdir(d)
    o = os.path.join(d, name)
    os.makedirs(o)
    pre = {}
    if how == 5:
        pre = dict(earlier)
    if how == 4:
        pre = {"notes.txt": b"keep\n", "f_RPsl_0.csv": b"R,l,log(value)\n1,0,-16\n", "f_RPsl_900.csv": b"old\n", "rho_RPsl_0.csv.bak": b"b", "f_0.csv": b""}
    for k, b in pre.items():
        with open(os.path.join(o, k), "wb") as f:
            f.write(b)
    with open(os.path.join(o if how == 1 else d, pname), "w") as f:
        f.write(text)
    up = "../" * (1 + name.count("/"))
    cwd, args = [(d, [d + "/" + pname, o]), (o, [pname, "."]), (d, ["./" + pname, name]), (o, [up + pname, up + name]),
                 (d, [pname, o + "/"]), (o, [up + pname, "."])][how]
    env = {k: v for k, v in os.environ.items() if not k.startswith(("OMP_", "GOMP_"))}
    env.update(OMP_NUM_THREADS=str(threads), OMP_WAIT_POLICY="passive", LC_ALL="C",
               ASAN_OPTIONS="detect_leaks=0:exitcode=77", UBSAN_OPTIONS="print_stacktrace=1:exitcode=77")
    mates = []
    if mate and cwd == d:       # other runs, started from the same directory at the same time
        with open(d + "/mate.txt", "w") as f:
            f.write(mate)
        for i in range(3):
            os.mkdir(d + "/mate%d" % i)
            mates.append(subprocess.Popen([BINS[(variant, fl, "main")], "mate.txt", "mate%d" % i], cwd=d, env=env, stdin=subprocess.DEVNULL,
                                          stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
    try:
        p = subprocess.run([BINS[(variant, fl, "main")]] + args, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        for m in mates:
            m.wait(120)
    except subprocess.TimeoutExpired:
        raise fw.Inconclusive("run took more than 120 s")
    finally:
        for m in mates:
            if m.poll() is None:
                m.kill()
                m.wait()
    if mates:
        if any(m.returncode == -9 for m in mates):
            raise fw.Inconclusive("run was killed")
        check(all(m.returncode == 0 for m in mates), lambda: "runs started at the same time ended with status %s" % [m.returncode for m in mates])
        both = [{x: open(os.path.join(d, "mate%d" % i, x), "rb").read() for x in sorted(os.listdir(d + "/mate%d" % i))} for i in range(3)]
        check(both[0] == both[1] == both[2], "runs started at the same time differ")
        for i in range(3):
            shutil.rmtree(d + "/mate%d" % i)
        os.remove(d + "/mate.txt")
    if p.returncode == -9:
        raise fw.Inconclusive("run was killed")
    check(p.returncode == 0, lambda: "executable ended with status %d: %s" % (p.returncode, p.stderr.decode(errors="replace")[-1500:]))
    files = {}
    for x in sorted(os.listdir(o)):
        check(os.path.isfile(os.path.join(o, x)), lambda: "the run made %s in its output directory" % x)
        with open(os.path.join(o, x), "rb") as f:
            files[x] = f.read()
    for k, b in pre.items():
        got = files.pop(k, None)
        check(got is not None and got[:len(b)] == b, lambda: "the run changed %s, which was there before it" % k)
        if len(got) > len(b):
            files[k] = got[len(b):]
    if how == 1:
        check(files.pop(pname, None) == text.encode(), "the run changed its parameter file")
    else:
        check(open(os.path.join(d, pname)).read() == text, "the run changed its parameter file")
    check(sorted(os.listdir(d)) == sorted([name.split("/")[0], pname][:1 + (how != 1)]), "files written outside the output directory: %s" % os.listdir(d))
    return p.stdout.decode(errors="replace"), files


def table(name, data, nx, nl):
    lines = data.decode(errors="replace").split("\n")
    check(lines[0].strip() == "R,l,log(value)", lambda: "%s: header %r" % (name, lines[0]))
    check(lines[-1] == "", name + ": last row not terminated")
    try:
        t = np.array([[float(x) for x in l.split(",")] for l in lines[1:-1]])
    except ValueError as e:
        raise fw.Violation("%s: %s" % (name, e))
    check(t.shape == (nx * nl, 3), lambda: "%s has %s rows and columns, expected %s" % (name, t.shape, (nx * nl, 3)))
    return t.reshape(nx, nl, 3)


def progress(out):
    rows = []
    for l in out.split("\n"):
        m = re.match(r"^\s*(\S+)\s+Grid\s+\S+\s+(\S+)\s+(\S+)\s*$", l)
        if m:
            rows.append([float(x) for x in m.groups()])
    return rows


def compare(name, g, t, P, delta):
    """P: power per shell and degree; delta: absolute error of the field per point."""
    R = t[:, :, 0]
    close(name + ": R column", R, np.repeat(g.R[:, None], g.nl, 1), 1e-13 * (abs(g.Rmax) + abs(g.Rmin)))
    check(bool(np.all(t[:, :, 1] == np.arange(g.nl)[None, :])), name + ": l column")
    v = t[:, :, 2]
    check(bool(np.all(np.isfinite(v))), name + ": not finite")
    lin = 10.0 ** v
    tol = 2 * np.sqrt(P) * delta * 4 + 20 * delta ** 2 + 1e-12 * P + 1e-16
    low = v == -16
    check(bool(np.all(v >= -16)), name + ": value below the floor")
    close(name + ": angular power", np.where(low, np.minimum(P, 1e-16), lin), P, tol)


def one(case, ctx, variant):
    q = fix_k(case["q"], 0.6)
    g = ref.G3(variant, *case["rad"], case["nx"], *case["res"])
    # one step size for both schemes of a pair
    dt = float(min(stable_dt(ref.G3(v, *case["rad"], case["nx"], *case["res"]), case["cfl"]) for v in ("fd_lon", "cheb_lon")))
    text, mate = [params_text(grid_params(case, q, dt=dt, nt=case["nt"], t_step_save=case["save"], rl=float(case["rlu"][0]), ru=float(case["rlu"][1]),
                                   l_ang=case["lm"][0], m_ang=case["lm"][1], amp=float(case["amp"]), initial_data_direction=case["dir"])) for case in (case, dict(case, nx=case["nx"] + 1, nt=min(case["nt"], 3)))]
    k = case["nt"] + 3 * case["nx"] + int(1e3 * case["cfl"])
    out, files = launch(ctx, variant, text, case["threads"][0], [0, 2, 0, 3][k % 4], None, NAMES[k % len(NAMES)], PNAMES[k % len(PNAMES)],
                        mate if k % 4 in (0, 1) and k % 3 == 1 and g.N < 20000 else None)
    out2, files2 = launch(ctx, variant, text, case["threads"][1], [1, 0, 2, 4, 1, 3, 4, 5, 5][(case["nt"] + case["nx"]) % 9], files, NAMES[(k // 5) % len(NAMES)])
    check(files == files2, lambda: "two runs of the same input differ in %s" % sorted(k for k in set(files) | set(files2) if files.get(k) != files2.get(k)))
    return judge(g, case["M"], case["a"], q, dt, case["nt"], case["save"], case["cfl"], (case["amp"], *case["rlu"], *case["lm"], case["dir"]), out, files)


def judge(g, M, a, q, dt, nt, sv, cfl, data, out, files):
    """Compares the files and the output of a run with the reference solution; cfl: step in units of a stable one."""
    nsnap = 1 + (max(nt - 1, 0) // sv)
    want = sorted("%s_RPsl_%d.csv" % (n, i) for n in ("f", "rho") for i in range(nsnap))
    check(sorted(files) == want, lambda: "output files %s, expected %s" % (sorted(files), want))
    rows = progress(out)
    check(len(rows) == nsnap, lambda: "%d progress lines, expected %d:\n%s" % (len(rows), nsnap, out[-800:]))
    S = Solver(g, M, a, q, dt)
    f, p, mx = S.initial(*data)
    if 0 < mx < 1e-12:
        return ["tiny"], None
    tabs = []
    snap = 0
    tick = 0
    moved = False
    lab = []
    f0 = f
    # sensitivity of the data to the rounding of r near the ends
    base = 1e-10
    scm = 0.0
    if g.cheb:
        base = 1e-9
    for itm in range(0, max(nt, 1)):
        if itm:
            (fn, pn), (f1, p1) = S.step(f, p)
        else:
            fn, pn, f1, p1 = f, p, f, p
        sc = max(float(np.max(np.abs(x))) for x in (fn, pn, f1, p1)) if np.all(np.isfinite(f1)) and np.all(np.isfinite(p1)) else np.inf
        scm = sc = max(sc, scm)
        if sc > 30 or np.max(np.abs(f1)) > 0.55:
            lab.append("left domain")
            break
        if itm % sv == 0:
            # an unstable step amplifies rounding errors: by up to the Runge-Kutta polynomial of the largest eigenvalue per step
            z = 3 * cfl
            grow = (1 + z + z * z / 2 + z ** 3 / 6 + z ** 4 / 24) ** itm if cfl > 1.5 else 1 + itm
            if grow > 1e4 and cfl > 1.5:
                lab.append("unstable")
                break
            dlt = base * sc * grow
            tf = table("f snapshot %d" % snap, files["f_RPsl_%d.csv" % snap], g.nx, g.nl)
            tr = table("rho snapshot %d" % snap, files["rho_RPsl_%d.csv" % snap], g.nx, g.nl)
            compare("field snapshot %d" % snap, g, tf, S.power(f1), dlt)
            fr = S.rad(S.Dr, f1)
            dr = dlt * max(1.0, 1.0 / (g.R[-1] - g.R[0] if not g.cheb else g.R[0] - g.R[-1])) * (g.nx ** 2 if g.cheb else 20)
            drho = 20 * dr * max(sc, float(np.max(np.abs(fr))), float(np.sqrt(np.max(S.parts(f1, p1)[2]))) / g.R.min()) * max(abs(v) for v in q.values())
            if g.sp.nm == g.sp.nl or not a:
                compare("rho snapshot %d" % snap, g, tr, S.power(S.rho(f1, p1)), drho)
            t, res, tv = rows[snap]
            close("progress line %d: time" % snap, t, dt * itm, 2e-5 * dt * itm)
            close("progress line %d: residual" % snap, res, S.res(fn, f1, pn), 2e-5 * res + 10 * dlt / dt * (1 if itm else 0) + 1e-9 * sc)
            close("progress line %d: total variation" % snap, tv, S.tv(f1), 2e-5 * abs(tv) + 10 * dlt)
            tabs.append((tf, S.power(f1), dlt))
            snap += 1
        f, p = f1, p1
    if snap >= 2 and nt > 2 and float(np.max(np.abs(f - f0))) > 1e-6 * float(np.max(np.abs(f0))) > 0:
        lab.append("moves")
    if any(q[k] for k in QKEYS if k != "k0"):
        lab.append("coupled")
    if g.sp.nm < g.sp.nl:
        lab.append("nm<nl")
    if a:
        lab.append("spin")
    return lab, (g, tabs)


def run(case, ctx):
    lab, a = one(case, ctx, case["variant"])
    if case["pair"] and a:
        other = {"fd": "cheb", "cheb": "fd"}[case["variant"].split("_")[0]] + "_" + case["variant"].split("_")[1]
        lb, b = one(case, ctx, other)
        if b and len(a[1]) == len(b[1]):
            (g1, t1), (g2, t2) = (a, b) if g_is_cheb(a) else (b, a)
            for i, (x, y) in enumerate(zip(t1, t2)):
                val = lambda t: np.where(t[0][:, :, 2] == -16, 0, 10.0 ** t[0][:, :, 2])
                W = interp(g1, g2.R)
                d = np.max(np.abs(W @ val(x) - val(y)))
                est = np.max(np.abs(W @ x[1] - y[1]))
                top = max(float(np.max(y[1])), float(np.max(x[1])), 1e-300)
                check(d <= 1.5 * est + 1e-6 * top + 1e-14, lambda: "finite-difference and Chebyshev runs differ by %.3g in snapshot %d (discretisation error %.3g)" % (d, i, est))
                if est < 0.05 * top:
                    lab.append("resolved pair")
    return sorted(set(lab))


def g_is_cheb(a):
    return a[0].cheb


def interp(g, R):
    """Interpolation matrix from the Chebyshev nodes of g to R."""
    u = (2 * R - g.Rmax - g.Rmin) / (g.Rmax - g.Rmin)
    return np.polynomial.chebyshev.chebvander(u, g.nx - 1) @ ref.cheb_A(g.nx)


def nontrivial(case, labels):
    return "moves" in labels or "resolved pair" in labels

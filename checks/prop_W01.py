from hypothesis import strategies as st
import json, math, os, shutil, subprocess
import numpy as np
import fw, gen, ref
from fw import check
from launchbase import *
from kerrbase import coupling, fix_k, QKEYS
from prop_E03 import stable_dt
from prop_X01 import judge

RULE = ("histories of 1-2 launches of small configurations (both schemes, mass, spin up to extremal, couplings, pulse in units of the horizon, 0-20 steps, 1-25 saved times, "
        "1-4 threads, local or as a cluster job, numbers with and without a point, same or new launch object) through sim_class.py with the real executables; horizon, grid ends, step, "
        "step count, save interval and pulse ends are derived from the configuration by the check itself, and the snapshots and captured output found in the run directory compared with the dense solver's. "
        "Non-trivial: at least two snapshots of a moving field, or a second launch.")
COUNT = {"quick": 1280, "thorough": 8000}
FLAVOURS = ["opt"] * 4
EXES = {"default_fd.run": ("fd_lon", "opt", "main"), "default_cheb.run": ("cheb_lon", "opt", "main")}
TARGETS = list(EXES.values())
ASSUMPTIONS = ["SHTns is replaced by a stand-in written from its documentation (shtns_ref/)",
               "sbatch and time are replaced by scripts; the job script a launch leaves behind is executed by the check"]
BINPATH = {}


def prepare(bins, scratch):
    BINPATH.update(bins)


@st.composite
def launch(draw, i, tier):
    big = tier == "thorough"
    whole = draw(st.integers(0, 4)) == 3
    M = draw(st.sampled_from([1, 2])) if whole else draw(st.one_of(st.just(1.0), st.just(1.0), gen.fl(0.5, 3)))
    sk = draw(st.sampled_from(["zero", "ext", "-ext", "near", "any", "any", "any"]))
    a = {"zero": 0 * M, "ext": M, "-ext": -M, "near": round(0.9999 * M, 16)}.get(sk)
    if a is None:
        a = M * draw(gen.fl(-0.99, 0.99))
        a = 0.0 if abs(a) < 1e-200 else a
    nl = draw(st.integers(1, 4 if big else 3))
    s = {"black_hole_mass": M, "black_hole_spin": a, "nx": draw(st.integers(10, 24 if big else 16)), "nl": nl, "nm": nl,
         "nlat": nl + draw(st.integers(1, 4)), "nphi": 2 * nl + draw(st.integers(1, 4)), "use_cheb": draw(st.booleans())}
    cl = draw(st.sampled_from([20, 10, 40, 30])) if whole else M * draw(st.one_of(st.just(20.0), gen.fl(8, 60)))
    s["compactification_length"] = cl
    if not s["use_cheb"] or draw(st.booleans()):
        s["cfl"] = 1 if whole and draw(st.booleans()) else draw(st.sampled_from([0.75, 0.5, 0.25, 0.9]))
    q = dict(dict.fromkeys(QKEYS, 0.0), k0=1.0) if draw(st.integers(0, 2)) == 0 else draw(coupling())
    s.update(fix_k(q, 0.6))
    if whole:
        for k in QKEYS:
            if s[k] == int(s[k]):
                s[k] = int(s[k])
    s["l_ang"] = draw(st.one_of(st.integers(0, nl - 1), st.integers(0, nl)))
    s["m_ang"] = draw(st.integers(0, s["l_ang"]))
    s["amp"] = draw(st.sampled_from([0.3, 0.1, -0.2, 1e-3]))
    s["rl_0"], s["ru_0"] = draw(st.sampled_from([(-1.0, 3.0), (-1, 4), (1.1, 12.0), (1, 9), (0.5, 30.0), (2.0, 40.0), (-3.0, 5.5), (1.25, 200.0)]))
    s["initial_data_type"] = "compact_pulse"
    s["initial_data_direction"] = draw(st.sampled_from(["ingoing", "outgoing", "time_symmetric"]))
    nt = draw(st.one_of(st.integers(3, 10), st.integers(4, 16), st.integers(0, 20)))
    s["num_saved_times"] = draw(st.one_of(st.integers(1, 6), st.integers(1, nt + 3), st.integers(max(1, nt // 2), nt + 5)))
    frac = draw(st.sampled_from([0.5, 0.1, 0.9, 0.3]))
    s["evolve_time"] = (nt + frac) * derive(s)["dt"] / M
    s["bin_name"] = "default_cheb.run" if s["use_cheb"] else "default_fd.run"
    L = {"set": s, "nt": nt, "computer": draw(st.sampled_from(["home", "home", "cluster"])), "dir": draw(st.sampled_from([None, "/w%d" % i, "/b/w%d" % i])),
         "time_it": draw(st.booleans()), "threads": draw(st.integers(1, 4)), "levels": draw(st.integers(1, 2)),
         "order": draw(st.one_of(st.none(), st.integers(0, 10 ** 6))), "reuse": 0 if i and draw(st.booleans()) else None}
    return L


def derive(s):
    """What the configuration asks for, from the documentation of the run script."""
    M, a, cl = float(s["black_hole_mass"]), float(s["black_hole_spin"]), float(s["compactification_length"])
    h = M + math.sqrt((M - a) * (M + a))
    ang = 6.0 / max(s["nlat"], s["nphi"]) ** 2
    rad = 6.0 / s["nx"] ** 2 if s["use_cheb"] else float(s["cfl"]) / (s["nx"] - 1)
    d = {"dt": min(ang, rad), "Rmin": h / (1 + h / cl), "Rmax": cl, "rl": h * s["rl_0"], "ru": h * s["ru_0"]}
    return d


@st.composite
def strat(draw, tier):
    n = draw(st.sampled_from([1, 1, 2, 2]))
    c = {"launches": [draw(launch(i, tier)) for i in range(n)]}
    if n == 2 and draw(st.integers(0, 2)):      # a study: the first configuration with one setting changed
        A, B = c["launches"]
        s = dict(A["set"])
        k = draw(st.sampled_from(["nx", "nx", "sphere", "use_cheb", "cfl", "num_saved_times", "amp", "black_hole_spin", "V2", "l_ang", "rl_0"]))
        if k == "use_cheb":
            s["use_cheb"] = not s["use_cheb"]
            s.setdefault("cfl", 0.5)
            s["bin_name"] = "default_cheb.run" if s["use_cheb"] else "default_fd.run"
        elif k == "sphere":
            s["nlat"] += draw(st.integers(1, 4))
            s["nphi"] += draw(st.integers(0, 4))
        elif k == "nx":
            s["nx"] = draw(st.integers(10, 24))
        elif k == "black_hole_spin":
            s[k] = -s[k] if s[k] else s["black_hole_mass"]
        elif k in B["set"]:
            s[k] = B["set"][k]
            if k == "rl_0":
                s["ru_0"] = B["set"]["ru_0"]
            if k == "l_ang":
                s[k] = min(s[k], s["nl"])
                s["m_ang"] = min(s["m_ang"], s[k])
        x = float(s["evolve_time"]) * s["black_hole_mass"] / derive(s)["dt"]
        if k == "V2":
            s.update(fix_k({y: s[y] for y in QKEYS}, 0.6))
        if x < 70 and 1e-6 < x % 1 < 1 - 1e-6:
            B["set"], B["nt"] = s, int(x)
            B["reuse"] = 0 if draw(st.integers(0, 2)) else None
    return c


def strategy(tier):
    return strat(tier)


def corners(tier):
    out = []
    for i in range(12):
        cheb = i % 2 == 1
        nl = 1 + i % 3
        s = {"black_hole_mass": [1.0, 2.0, 1][i % 3], "black_hole_spin": [0.9999, -0.5, 0, 1.0][i % 4] * [1.0, 2.0, 1][i % 3] if i % 4 != 2 else 0,
             "compactification_length": [20.0, 20, 40.0][i % 3], "nx": 10 + i, "nl": nl, "nm": nl, "nlat": nl + 2, "nphi": 2 * nl + 2, "use_cheb": cheb, "cfl": 0.75,
             "l_ang": i % nl, "m_ang": 0, "amp": 0.25, "rl_0": -1.0, "ru_0": 6.0, "initial_data_type": "compact_pulse",
             "initial_data_direction": ["ingoing", "outgoing", "time_symmetric"][i % 3], "num_saved_times": [5, 1, 100, 3][i % 4],
             "bin_name": "default_cheb.run" if cheb else "default_fd.run"}
        s.update(fix_k(dict(dict.fromkeys(QKEYS, 0.0), k0=1.0, V2=float(i % 3), k1=0.5 * (i // 6)), 0.6))
        nt = [10, 7, 16, 12, 1, 0][i // 2]
        s["evolve_time"] = (nt + 0.5) * derive(s)["dt"] / s["black_hole_mass"]
        L = {"set": s, "nt": nt, "computer": ["home", "cluster"][(i // 2) % 2], "dir": [None, "/c"][i // 6], "time_it": i % 3 == 0, "threads": 1 + i % 4, "levels": 1,
             "order": None, "reuse": None}
        out.append({"launches": [L]})
        if i >= 6:
            out.append({"launches": [out[i - 6]["launches"][0], dict(L, dir="/second", reuse=0)]})
    return out


class RealLab(Lab):
    def __init__(self, ctx):
        Lab.__init__(self, ctx)
        self.env["OMP_WAIT_POLICY"] = "passive"
        for n, t in EXES.items():
            p = os.path.join(self.home, "Bin", n)
            shutil.copyfile(BINPATH[t], p)
            os.chmod(p, 0o755)
            if demote():
                os.chown(p, NOBODY, NOBODY)


def run(case, ctx):
    lab = RealLab(ctx)
    todo = []
    for L in case["launches"]:
        d = {k: enc(v) for k, v in L["set"].items()}
        if L["order"] is not None:
            ks = list(d)
            np.random.default_rng(L["order"]).shuffle(ks)
            d = {k: d[k] for k in ks}
        d.update(run_type="basic_run", output_dir=L["dir"], computer=L["computer"], out_stem=lab.stem, recompile=False, time_it=L["time_it"],
                 num_threads=L["threads"], num_omp_levels=L["levels"], walltime="1:00:00", memory="1000", email="a@b.c")
        todo.append({"settings": d, "template": False, "reuse": L["reuse"]})
    rep = lab.run(todo)
    labels = set()
    used = []
    for i, (L, r) in enumerate(zip(case["launches"], rep)):
        s = L["set"]
        what = "launch %d: " % i
        local = L["computer"] == "home"
        if r["error"]:
            # an automatic name, repeated within the same second, is refused
            same = L["dir"] is None and any(u["dir"] is None and (u["computer"] == "home") == local and
                                            all(u["set"][k] == s[k] for k in ("black_hole_mass", "black_hole_spin", "nx", "nl", "nm")) for u in used)
            check(same, what + "failed: " + r["error"])
            continue
        used.append(L)
        if not local:
            log = [l for l in r["log"].split("\n") if l.startswith(("arg=", "cwd="))]
            args = [l[4:] for l in log if l.startswith("arg=")]
            check(bool(args), what + "no job was submitted")
            script = os.path.join(log[0][4:], args[-1])
            rundir = os.path.dirname(os.path.realpath(script))
            check(os.path.isfile(script), what + "no job script")
            try:
                p = subprocess.run(["/bin/sh", script], cwd=rundir, env=dict(lab.env, SLURM_CPUS_PER_TASK=str(L["threads"])), stdin=subprocess.DEVNULL,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, **demote())
            except subprocess.TimeoutExpired:
                raise fw.Inconclusive("job did not finish")
        else:
            new = [os.path.dirname(x) for x in set(r["after"]) - set(r["before"]) if x.endswith("/" + s["bin_name"])]
            check(len(new) == 1, lambda: what + "run directories with an executable: %s" % new)
            rundir = new[0]
        files, text = {}, ""
        for x in sorted(os.listdir(rundir)):
            p = os.path.join(rundir, x)
            if not os.path.isfile(p) or x == s["bin_name"]:
                continue
            with open(p, "rb") as f:
                b = f.read()
            if x.endswith(".csv"):
                files[x] = b
            else:
                text += b.decode(errors="replace") + "\n"
        d = derive(s)
        M, a = float(s["black_hole_mass"]), float(s["black_hole_spin"])
        g = ref.G3("cheb_lon" if s["use_cheb"] else "fd_lon", float(s["compactification_length"]), d["Rmin"], d["Rmax"], s["nx"], s["nl"], s["nm"], s["nlat"], s["nphi"])
        q = {k: float(s[k]) for k in QKEYS}
        nt = L["nt"]
        sv = max(1, nt // s["num_saved_times"])
        try:
            lb, t = judge(g, M, a, q, d["dt"], nt, sv, d["dt"] / stable_dt(g, 1.0), (float(s["amp"]), d["rl"], d["ru"], s["l_ang"], s["m_ang"], s["initial_data_direction"]), text, files)
        except fw.Violation as e:
            raise fw.Violation(what + "%s\ncaptured output: %s" % (e, text[-600:]))
        labels.update(lb)
        labels.add("local" if local else "job")
        if i:
            labels.add("second")
    return sorted(labels)


def nontrivial(case, labels):
    return "moves" in labels or "second" in labels

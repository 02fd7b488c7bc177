from hypothesis import strategies as st
from fractions import Fraction as Q
import importlib.util, math, os, sys
import numpy as np
import fw, gen, ref
import build as B
from fw import check, close
from launchbase import settings

RULE = ("settings with 0<=|a|<=M (0, +-M, 0.9999M and uniform), compactification lengths 0.1..1000, nx 9..9000, nlat/nphi 1..130, evolution times down to less "
        "than one step, snapshot counts above and below the number of steps, both schemes, one or two derivations on the same object; the horizon is "
        "judged by its residual, bounds and counts by rational arithmetic, the inner edge also by the simulator's own R->r. Non-trivial: spin nonzero and at least 2 steps.")
COUNT = {"quick": 16000, "thorough": 200000}
TARGETS = [("fd_lon", "opt"), ("fd_lon", "san")]
DERIVED = {"horizon", "rl", "ru", "Rmin", "Rmax", "dt", "nt", "t_step_save"}


@st.composite
def strat(draw, tier):
    c = {"set": draw(settings())}
    if draw(st.integers(0, 3)) == 0:
        c["again"] = draw(settings())
    return c


def strategy(tier):
    return strat(tier)


BASE = {"black_hole_mass": 1.0, "black_hole_spin": 0.9999, "compactification_length": 20.0, "evolve_time": 600.0, "num_saved_times": 1200, "nx": 8193,
        "nl": 20, "nm": 18, "nlat": 40, "nphi": 40, "use_cheb": False, "cfl": 0.75, "bin_name": "default_fd.run", "km1": 0.0, "k0": 1.0, "k1": 0.0,
        "k2": 0.0, "V2": 1.0, "V3": 0.0, "V4": 100.0, "l_ang": 0, "m_ang": 0, "amp": 0.5, "rl_0": -1.0, "ru_0": 3.0,
        "initial_data_type": "compact_pulse", "initial_data_direction": "outgoing"}


def corners(tier):
    out = []
    for M, a in ((1.0, 0.0), (1.0, 1.0), (1.0, -1.0), (2.5, -0.7), (0.3, 0.3), (7.0, 6.9999)):
        for nx, nlat, nphi in ((8193, 40, 40), (33, 4, 8), (33, 8, 4), (9, 60, 20), (9, 20, 60), (65, 65, 65), (64, 64, 2)):
            for cheb in (False, True):
                for T, n in ((600.0, 1200), (0.05, 3), (10.0, 7), (1.0, 10 ** 6)):
                    out.append({"set": dict(BASE, black_hole_mass=M, black_hole_spin=a, nx=nx, nlat=nlat, nphi=nphi, use_cheb=cheb, evolve_time=T,
                                            num_saved_times=n)})
    return out


_mod = {}


def Sim():
    if "m" not in _mod:
        sys.dont_write_bytecode = True
        sp = importlib.util.spec_from_file_location("sim_class_ut", os.path.join(B.REPO, "sim_class.py"))
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        _mod["m"] = m
    return _mod["m"].Sim()


def near_floor(n, x):
    """n is floor(x) up to rounding of x."""
    f = math.floor(x)
    if n == f:
        return True
    e = Q(1, 10 ** 13) * max(abs(x), 1)
    return math.floor(x - e) <= n <= math.floor(x + e)


def run(case, ctx):
    s = ctx.server("fd_lon")
    try:
        sim = Sim()
    except Exception as e:
        fw.fail("sim_class.py cannot be used: %r" % e)
    lab = set()
    for c in (case["set"], case.get("again")):
        if c is None:
            continue
        for k, v in c.items():
            setattr(sim, k, v)
        before = dict(vars(sim))
        try:
            sim.set_derived_params()
        except Exception as e:
            fw.fail("set_derived_params raised %r" % e)
        v = vars(sim)
        for k in before:
            if k not in DERIVED:
                check(v.get(k) == before[k], lambda: "setting %s changed from %r to %r" % (k, before[k], v.get(k)))
        for k in DERIVED:
            check(k in v and isinstance(v[k], (int, float)) and math.isfinite(v[k]), lambda: "derived %s is %r" % (k, v.get(k)))
        M, a, cl = (Q(c[k]) for k in ("black_hole_mass", "black_hole_spin", "compactification_length"))
        h = Q(v["horizon"])
        check(abs(h * h - 2 * M * h + a * a) <= Q(1, 10 ** 15) * 8 * M * M, lambda: "horizon %r is not a root (M=%r a=%r)" % (v["horizon"], c["black_hole_mass"], c["black_hole_spin"]))
        check(h >= M * (1 - Q(1, 10 ** 15)), lambda: "horizon %r is not the outer root" % v["horizon"])
        e = Q(1, 10 ** 14)
        w = h / (1 + h / cl)
        check(abs(Q(v["Rmin"]) - w) <= e * w, lambda: "Rmin %r, expected %r" % (v["Rmin"], float(w)))
        check(abs(Q(v["Rmax"]) - cl) <= Q(1, 10 ** 15) * cl, lambda: "Rmax %r" % v["Rmax"])
        check(v["Rmin"] < v["Rmax"], "Rmin is not below Rmax")
        for k in ("rl", "ru"):
            w = h * Q(c[k + "_0"])
            check(abs(Q(v[k]) - w) <= e * abs(w), lambda: "%s %r, expected %r" % (k, v[k], float(w)))
        # simulator's map takes the inner edge back to the horizon
        g = s.call("grid_new", D=[float(cl), v["Rmin"], v["Rmax"]], I=[4, 1, 1, 2, 4]).I[0]
        r = s.call("grid_R_to_r", I=[g], A=[np.array([v["Rmin"]])]).A[0][0]
        s.call("grid_del", I=[g])
        close("r(Rmin)", r, float(h), 1e-14 * float(h) * (1 + float(h / cl)))
        # time step
        nx, nlat, nphi = c["nx"], c["nlat"], c["nphi"]
        dt = Q(v["dt"])
        ang = Q(6, max(nlat, nphi) ** 2)
        rad = Q(6, nx ** 2) if c["use_cheb"] else Q(c["cfl"]) / (nx - 1)
        b = min(ang, rad)
        check(abs(dt - b) <= e * b, lambda: "dt %r; angular bound %r, radial bound %r" % (v["dt"], float(ang), float(rad)))
        lab.add("angular" if ang < rad else "radial")
        x = Q(c["evolve_time"]) * M / dt
        check(v["nt"] == int(v["nt"]) and near_floor(int(v["nt"]), x), lambda: "nt %r, time/dt = %r" % (v["nt"], float(x)))
        n = max(1, int(v["nt"]) // c["num_saved_times"])
        check(v["t_step_save"] == n and isinstance(v["t_step_save"], int), lambda: "t_step_save %r, expected %d (nt %d, %d snapshots)" % (v["t_step_save"], n, v["nt"], c["num_saved_times"]))
        lab.add("save1" if n == 1 else "save>1")
        lab.add("steps>1" if v["nt"] > 1 else "steps<=1")
        if a:
            lab.add("spin")
    return sorted(lab)


def nontrivial(case, labels):
    return "spin" in labels and "steps>1" in labels

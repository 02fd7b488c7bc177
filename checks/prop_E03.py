from hypothesis import strategies as st
import numpy as np
import fw, gen, ref
from fw import check, close, unchanged, VARIANTS
from kerrbase import *

RULE = ("grids/masses/spins/couplings as for E01 with nx 10..16 (24) or larger (3/32 of the cases: nx to 130, angular grids to 40x72 or l to 18), amplitudes down to 1e-40, noisy or smooth states, dt a random fraction of the stable step (1/24 negative, 1/48 zero, 1/20 shortened by up to 1e-30 from one field exactly zero), either field exactly zero in 1/8; a history of "
        "1-6 operations (step, shift, energy density, RHS call on another state, garbage written into work and next-level arrays; 1/40 of the cases 24 step+shift more; 1/60 start on an object that has taken 40 to 600 steps before), with NaN in the "
        "unused arrays at the start; after every step the next level is compared with a numpy RK4 built from the filter and RHS of separate "
        "objects. Corner cases with more points than fit in 16 bits. Non-trivial: at least one step and two operations, dt*|k| > 1e-6 |f|.")
DECOYS = True
COUNT = {"quick": 4800, "thorough": 120000}
SAN_FRACTION = 0.3

OPS = ["step", "step", "stepshift", "stepshift", "shift", "rho", "rhs", "garbage"]
MANY = 24


@st.composite
def strat(draw, tier):
    c = draw(kgrid(10, 16 if tier == "quick" else 24, 3 if tier == "quick" else 5, outside=True, wide=True))
    c["q"] = draw(coupling())
    c["noise"] = draw(st.sampled_from([0.0, 0.01, 1.0]))
    c["amp"] = [draw(st.sampled_from([0.2, 0.05])), draw(st.sampled_from([0.3, 0.01]))]
    c["seed"] = draw(gen.seeds)
    c["cfl"] = draw(gen.fl(0.05, 1.0))
    c["ops"] = draw(st.lists(st.sampled_from(OPS), min_size=1, max_size=6 if tier == "quick" else 12))
    c["threads"] = draw(st.sampled_from([[1, 1], [1, 1], [3, 1], [2, 2]]))
    if draw(st.integers(0, 39)) == 7 and c["nx"] < 30 and c["res"][2] * c["res"][3] < 60:
        c["ops"] = c["ops"][:2] + ["many"] + c["ops"][2:4]
        c["noise"] = 0.0
    weak = draw(st.sampled_from([1.0] * 7 + [1e-5, 1e-9, 1e-14, 1e-40]))
    if weak < 1:
        c["amp"] = [x * weak for x in c["amp"]]
    if draw(st.integers(0, 59)) == 13 and c["nx"] < 30 and c["res"][2] * c["res"][3] < 60:
        c["ops"] = ["burn%d" % draw(st.sampled_from([40, 70, 130, 260, 600]))] + c["ops"]
    if draw(st.integers(0, 9)) == 4:
        c["q"].update(km1=0.0, k1=0.0, k2=0.0)
        c["amp"] = [x * 10 for x in c["amp"]]
        c["loud"] = True
    t = draw(st.integers(0, 23))        # backwards in time, or not at all
    c["dir"] = -1 if t == 9 else 0 if t == 17 and draw(st.booleans()) else 1
    t = draw(st.integers(0, 23))        # one of the fields exactly zero (time-symmetric, or pure momentum)
    if t in (5, 6, 7):
        c["amp"] = [c["amp"][0] * (t > 5), c["amp"][1] * (t == 5)]
    if draw(st.integers(0, 19)) == 11:  # a very short step, from one field exactly zero so that the change shows
        c["short"] = draw(st.sampled_from([1e-4, 1e-8, 1e-10, 1e-12, 1e-15, 1e-30]))
        c["amp"] = [0.2, 0.0] if draw(st.booleans()) else [0.0, 0.3]
    return c


def strategy(tier):
    return strat(tier)


def corners(tier):
    out = []
    for i, c in enumerate(corner_states()):
        c = {k: c[k] for k in ("variant", "res", "nx", "rad", "M", "a", "q")}
        out.append(dict(c, noise=[0.0, 0.01][i % 2], amp=[0.2, 0.3], seed=i, cfl=0.7,
                        ops=[["step", "shift", "step"], ["stepshift", "rho", "garbage", "step"], ["rhs", "step", "step"]][i % 3],
                        threads=[1, 1]))
    for i, c in enumerate(corner_states()[::5]):
        c = {k: c[k] for k in ("variant", "res", "nx", "rad", "M", "a", "q")}
        out.append(dict(c, noise=[0.0, 0.01][i % 2], amp=[[0.2, 0.0], [0.0, 0.3], [0.2, 0.3]][i % 3], seed=i, cfl=0.7, dir=[1, 1, -1, 0][i % 4],
                        ops=[["stepshift", "step"], ["garbage", "step", "rho"], ["garbage", "step", "step", "shift", "step"]][i % 3], threads=[1, 1]))
    for i, c in enumerate(corner_states()[2::9]):
        c = {k: c[k] for k in ("variant", "res", "nx", "rad", "M", "a", "q")}
        out.append(dict(c, noise=0.0, amp=[[0.2, 0.0], [0.0, 0.3]][i % 2], seed=i, cfl=0.7, short=[1e-8, 1e-10, 1e-12, 1e-20][i % 4], ops=["step", "stepshift"], threads=[1, 1]))
    for i, c in enumerate(huge_states(tier)):
        c = {k: c[k] for k in ("variant", "res", "nx", "rad", "M", "a", "q")}
        out.append(dict(c, noise=0.01, amp=[0.2, 0.3], seed=i, cfl=0.7, ops=["stepshift"], threads=[2, 1]))
    return out


def stable_dt(g, cfl):
    d = 6.0 / max(g.nlat, g.nphi, 2) ** 2
    H = (g.Rmax - g.Rmin)
    if g.cheb:
        return cfl * min(d, 6.0 / g.nx ** 2 * min(H, 1.0), 0.1)
    return cfl * min(d, 0.5 * H / (g.nx - 1.0), 0.1)


def initial(case, g):
    r = np.random.default_rng(case["seed"])
    out = []
    for k, A in enumerate(case["amp"]):
        s = State(g, case["seed"] + k, 4, 3, A).f
        s = s + case["noise"] * A * r.uniform(-1, 1, s.shape)
        out.append(g.flat(s))
    return out


def run(case, ctx):
    s, h, g = open_grid(case, ctx)
    s.call("omp", I=case["threads"])
    q = fix_k(case["q"], 0.6)
    dt = stable_dt(g, case["cfl"]) * case.get("dir", 1) * case.get("short", 1.0)
    P = new_params(s, ctx, grid_params(case, q, dt=float(dt)))
    cl, Rmin, Rmax = case["rad"]
    h2 = s.call("grid_new", D=[cl, Rmin, Rmax], I=[case["nx"]] + case["res"]).I[0]
    e = s.call("eom_new", I=[h, P]).I[0]
    e2 = s.call("eom_new", I=[h2, P]).I[0]
    N = g.N
    nan = np.full(N, np.nan)
    F = [s.call("field_new", I=[N], D=[0.0], S=[n]).I[0] for n in ("f", "p")]
    n = initial(case, g)
    np1 = [None, None]
    for i in (0, 1):
        s.call("field_set", I=[F[i], 0], A=[n[i]])
        for w in (1, 2, 3):
            s.call("field_set", I=[F[i], w], A=[nan])
    rng = np.random.default_rng(case["seed"] + 5)

    def K(f, p):
        r = s.call("eom_k", I=[e2, h2], A=[f, p, nan, nan])
        return r.A[0], r.A[1]

    def step():
        a, b = (s.call("grid_filter", I=[h2], A=[x]).A[0] for x in n)
        k1 = K(a, b)
        k2 = K(a + 0.5 * dt * k1[0], b + 0.5 * dt * k1[1])
        k3 = K(a + 0.5 * dt * k2[0], b + 0.5 * dt * k2[1])
        k4 = K(a + dt * k3[0], b + dt * k3[1])
        return [a, b], [x + dt / 6 * (q1 + 2 * q2 + 2 * q3 + q4) for x, q1, q2, q3, q4 in zip((a, b), k1, k2, k3, k4)], \
            max(float(np.max(np.abs(v))) for kk in (k1, k2, k3, k4) for v in kk)

    lab = set()
    done = 0
    for op in [o for w in case["ops"] for o in (["stepshift"] * MANY if w == "many" else [w])]:
        if op in ("step", "stepshift"):
            s.call("eom_step", I=[e, h, F[0], F[1]])
            n, np1, kmax = step()
            sc = max(float(np.max(np.abs(n[0]))), float(np.max(np.abs(n[1]))), abs(dt) * kmax, 1e-300)
            if not np.isfinite(sc) or sc > 1e6 or np.max(np.abs(n[0])) > (20.0 if case.get("loud") else 0.55):
                lab.add("left domain")
                break
            for i in (0, 1):
                r = s.call("field_get", I=[F[i]])
                close("current level of %s after a step" % "fp"[i], r.A[0], n[i], 1e-12 * sc)
                close("next level of %s after a step" % "fp"[i], r.A[2], np1[i], min(1e-10 * sc, 4e-12 * float(np.max(np.abs(n[i]))) + 1e-9 * abs(dt) * kmax))
                if 0 < abs(dt) * kmax < 1e-6 and not np.any(n[i]) and np.any(np1[i]):
                    lab.add("short step")
                n[i] = r.A[0]
                np1[i] = r.A[2]
            lab.add("step")
            done += 1
            if done == MANY:
                lab.add("%d steps" % MANY)
            if abs(dt) * kmax > 1e-6 * float(np.max(np.abs(n[0]))):
                lab.add("moves")
        if op in ("shift", "stepshift"):
            if np1[0] is None:
                continue
            for i in (0, 1):
                b = s.call("field_get", I=[F[i]])
                s.call("field_shift", I=[F[i]])
                r = s.call("field_get", I=[F[i]])
                check(fw.same_bits(r.A[0], b.A[2]) and fw.same_bits(r.A[2], b.A[2]), "shift does not copy the next level")
                check(fw.same_bits(r.A[1], b.A[1]) and fw.same_bits(r.A[3], b.A[3]), "shift changes a work array")
                n[i] = r.A[0]
        elif op.startswith("burn"):           # many steps of the same object first, from this state
            for _ in range(int(op[4:])):
                s.call("eom_step", I=[e, h, F[0], F[1]])
                s.call("field_shift", I=[F[0]])
                s.call("field_shift", I=[F[1]])
            for i in (0, 1):
                s.call("field_set", I=[F[i], 0], A=[n[i]])
            np1 = [None, None]
            lab.add("used before")
        elif op == "rho":
            s.call("eom_rho", I=[e, h], A=[n[0], n[1], nan])
        elif op == "rhs":
            s.call("eom_k", I=[e, h], A=[0.1 * rng.uniform(-1, 1, N), rng.uniform(-1, 1, N), nan, nan])
        elif op == "garbage":
            for i in (0, 1):
                for w in (1, 3):
                    s.call("field_set", I=[F[i], w], A=[rng.standard_normal(N) * 1e30])
                if op == "garbage" and rng.integers(2):
                    x = rng.standard_normal(N)
                    s.call("field_set", I=[F[i], 2], A=[x])
                    if np1[i] is not None:
                        np1[i] = x
    for i in (0, 1):
        r = s.call("field_get", I=[F[i]])
        if "left domain" not in lab:
            check(fw.same_bits(r.A[0], n[i]), "current level changed by something other than a step or a shift")
    return sorted(lab)


def nontrivial(case, labels):
    return "step" in labels and "moves" in labels and len(case["ops"]) >= 2

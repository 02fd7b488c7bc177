from hypothesis import strategies as st
import numpy as np
import build as B
import fw, gen, ref
from fw import check, close, same_bits, VARIANTS
from kerrbase import *

RULE = ("4 variants, grids nx 9..40 with as few as 2x1 angular points, sequences of 2-8 parallel operations (3D derivatives, filter, spectra, residual, variation, "
        "initial data, right-hand side, energy density, step, shift) on random states; each run single-threaded and then 2-4 times with 2..16 (or up to 64) threads, nesting "
        "1..3, compared bitwise (1/6 of the cases in a new process that has run nothing single-threaded before; reductions to rounding). Half of the workers run the same under the thread sanitizer, with an own instrumented OpenMP "
        "runtime, where an unordered conflicting access ends the process. Non-trivial: more than one thread and at least two different operations.")
COUNT = {"quick": 3200, "thorough": 40000}
SAN_FRACTION = 0.35
NOTSAN = "thread sanitizer not usable here: only result comparison across thread counts was run"
ASSUMPTIONS = ["SHTns is replaced by a stand-in written from its documentation (shtns_ref/)",
               "the thread-sanitizer build runs on harness/gomp_shim.cpp instead of libgomp",
               "FFTW itself is not instrumented"]
TARGETS = [(v, "opt") for v in VARIANTS]
FLAVOURS = ["opt", "tsan", "opt", "tsan", "opt", "tsan", "opt", "opt"]

OPS = ["0", "1", "2", "3", "4", "5", "6", "7", "filter", "res", "tv", "k", "k", "rho", "step", "step", "id", "id", "shift"]


def more_bins(scratch):
    global FLAVOURS
    if B.tsan_works(scratch):
        try:
            return B.ensure([(v, "tsan") for v in VARIANTS])
        except B.BuildError:
            pass
    FLAVOURS = ["opt"]
    ASSUMPTIONS.append(NOTSAN)
    return {}


@st.composite
def strat(draw, tier):
    c = {"variant": draw(st.sampled_from(VARIANTS)), "res": draw(gen.sphere_res(4 if tier == "quick" else 6)),
         "nx": draw(gen.size(9, 24 if tier == "quick" else 40)), "M": 1.0, "a": draw(st.sampled_from([0.0, 0.5, 0.9, -0.7])),
         "q": draw(coupling())}
    c["rad"] = [20.0, 1.9, draw(st.sampled_from([20.0, 10.0]))]
    c["threads"] = [draw(st.one_of(st.integers(2, 16), st.sampled_from([2, 3, 8, 17, 24, 33, 64]))), draw(st.integers(1, 3))]
    c["reps"] = draw(st.integers(2, 4))
    c["ops"] = draw(st.lists(st.sampled_from(OPS), min_size=2, max_size=8))
    l = draw(st.integers(0, c["res"][0]))
    c["lm"] = [l, draw(st.integers(0, min(l, c["res"][1])))]
    c["seed"] = draw(gen.seeds)
    c["first"] = draw(st.integers(0, 5)) == 2
    return c


def strategy(tier):
    return strat(tier)


def corners(tier):
    out = []
    for i, v in enumerate(VARIANTS * 4):
        out.append({"variant": v, "res": [[2, 2, 4, 8], [1, 0, 2, 1], [3, 3, 5, 7], [2, 1, 3, 4]][i // 4], "nx": [9, 13, 24, 30][(i + i // 4) % 4],
                    "M": 1.0, "a": 0.5, "q": dict(dict.fromkeys(QKEYS, 0.1), k0=1.0), "rad": [20.0, 1.9, 20.0],
                    "threads": [[8, 2], [16, 1], [3, 3], [2, 2]][i % 4], "reps": 3, "lm": [1, 0], "seed": i,
                    "ops": sorted(set(OPS)), "first": False})
    for i, v in enumerate(VARIANTS):        # every operation as the first thing a process does
        for o in (["step"], ["filter"], ["k"], ["rho"], ["id"], ["2", "1"], ["7", "6"], ["3", "4"], ["5", "res"], ["tv", "0"]):
            out.append(dict(out[i], ops=o, first=True))
    for i, v in enumerate(VARIANTS):        # more threads than grid points on a line
        out.append(dict(out[i], threads=[[33, 1], [64, 1], [24, 2], [40, 1]][i], reps=2))
    for i in range(8):                      # grids as large as in production runs: long radial lines or fine angular grids, in all flavours
        big = [(48, [16, 16, 18, 36]), (300, [4, 4, 6, 10])][i % 3 % 2]
        if big[0] > 100 and VARIANTS[i // 2].startswith("cheb"):
            big = (129, [7, 7, 9, 16])
        out.append(dict(out[i], variant=VARIANTS[i // 2], nx=big[0], res=big[1], threads=[8, 1], reps=1, ops=[o for o in sorted(set(OPS)) if i % 2 == 0 or o != "id"]))
    return out


def run(case, ctx):
    if case.get("first"):           # a new process whose first operation is a parallel one
        ctx.server(case["variant"], fresh=True)
    s, h, g = open_grid(case, ctx)
    N, nx, nl = g.N, g.nx, g.nl
    q = fix_k(case["q"], 0.3)
    P = new_params(s, ctx, grid_params(case, q, dt=1e-3, l_ang=case["lm"][0], m_ang=case["lm"][1], rl=2.0, ru=12.0))
    e = s.call("eom_new", I=[h, P]).I[0]
    F = [s.call("field_new", I=[N], D=[0.0], S=[n]).I[0] for n in ("f", "p")]
    r = np.random.default_rng(case["seed"])
    T, L = case["threads"]
    nan = np.full(N, np.nan)
    lab = {"threads=%d" % min(T, 9), "nest=%d" % L}

    def do(op, x, y, z):
        if op in "01234567":
            if op == "7" and not g.cheb:
                op = "6"
            if op == "2" and g.sp.nm < g.sp.nl:
                op = "1"
            n = nx * nl if op in "67" else N
            return s.call("grid_op", I=[h, int(op)], A=[x, np.zeros(n) if op in "67" else nan]).A[:1]
        if op == "filter":
            return s.call("grid_filter", I=[h], A=[x]).A
        if op == "res":
            return [s.call("grid_res", I=[h], D=[0.01], A=[x, y, z]).D]
        if op == "tv":
            return [s.call("grid_tv", I=[h], A=[x]).D]
        if op == "k":
            return s.call("eom_k", I=[e, h], A=[x, y, nan, nan]).A[:2]
        if op == "rho":
            return s.call("eom_rho", I=[e, h], A=[x, y, nan]).A[:1]
        if op == "id":
            return s.call("id", I=[P, h], A=[np.zeros(N), np.zeros(N)]).A
        for i, v in ((0, x), (1, y)):
            s.call("field_set", I=[F[i], 0], A=[v])
            s.call("field_set", I=[F[i], 1], A=[z])
            s.call("field_set", I=[F[i], 2], A=[x * 2 + i])
            s.call("field_set", I=[F[i], 3], A=[z])
        if op == "step":
            s.call("eom_step", I=[e, h] + F)
        else:
            for f in F:
                s.call("field_shift", I=[f])
        return [s.call("field_get", I=[f]).A[w] for f in F for w in (0, 2)]

    for op in case["ops"]:
        x, y, z = (0.3 * r.uniform(-1, 1, N) for _ in range(3))
        early = None
        if case.get("first"):
            s.call("omp", I=[T, L])
            early = do(op, x, y, z)
        s.call("omp", I=[1, 1])
        want = do(op, x, y, z)
        for k in range(case["reps"]):
            s.call("omp", I=[T, L] if k != 1 else [max(2, T // 2), 2])
            got, early = early or do(op, x, y, z), None
            for i, (a, b) in enumerate(zip(got, want)):
                if op in ("res", "tv"):
                    close(op, a, b, 1e-12 * np.abs(b) + 1e-300)
                else:
                    check(same_bits(a, b), lambda: "result %d of %s with %d threads (nesting %d) differs from the single-threaded one: %s"
                          % (i, op, T, L, fw._where(b, a)))
        lab.add(op)
    return sorted(lab)


def nontrivial(case, labels):
    return case["threads"][0] > 1 and len([l for l in labels if "=" not in l]) >= 2

from hypothesis import strategies as st
import os
import numpy as np
import fw, gen, ref
from fw import check, close, unchanged, VARIANTS
from kerrbase import DEFAULTS, new_params, grid_params
from prop_P01 import info as params_of

RULE = ("histories of 4-40 create/use/destroy operations over up to 6 live objects (1/30 of the cases: up to 34, corner cases: up to 300) (radial, angular, grid, evolution) of differing sizes, smallest sizes included, an eighth of the fields with a value that is not finite, an eighth empty, uniform or partly empty, "
        "in 4 build variants, under g++'s or clang's address/undefined-behaviour sanitizers, under valgrind's memcheck, or with two different heap fill patterns; every answer is compared with that of the "
        "same call on an object that is alone in another process. A quarter of the cases repeat one create/use/destroy loop and measure the heap. Non-trivial: an "
        "object is used after another one was destroyed or created, or a heap measurement.")
COUNT = {"quick": 2400, "thorough": 30000}
SAN_FRACTION = 0.7
VG_FRACTION = 0.1
FLAVOURS = ["opt", "opt", "opt", "san", "san", "csan", "csan", "vg"]
TARGETS = [(v, f) for v in VARIANTS for f in ("opt", "san", "csan", "vg")]
ASSUMPTIONS = ["SHTns is replaced by a stand-in written from its documentation (shtns_ref/)",
               "FFTW plans are made with FFTW_ESTIMATE instead of measuring",
               "uninitialised reads are looked for by differing heap fill patterns and, on a tenth as many histories, by valgrind's memcheck"]

USES = {"cheb": ["to_ch", "to_po", "der", "filter", "info"],
        "fd": ["der", "der2", "filter", "info"],
        "sph": ["to_Ylm", "to_Sph", "lap", "dphi", "X", "raise", "lower", "filter", "power", "ylm", "info", "to_Ylm_c", "to_Sph_c"],
        "grid": ["0", "1", "2", "3", "4", "5", "6", "7", "filter", "res", "tv", "ylm", "row", "coords", "csv", "csv_R", "csv_n", "csv_xyz"],
        "eom": ["k", "rho", "step", "id"]}


@st.composite
def obj(draw, small=False):
    k = draw(st.sampled_from(["cheb", "cheb", "fd", "sph", "sph", "grid", "grid", "eom"]))
    huge = draw(st.integers(0, 14)) == 11
    if huge and k in ("cheb", "fd"):
        return {"k": k, "n": draw(st.sampled_from([64, 65, 100, 128, 129, 256, 257, 300, 512, 513, 1024, 1025])), "iv": draw(gen.interval())}
    if huge and k == "sph":
        nl = draw(st.integers(10, 44))
        return {"k": k, "res": [nl, draw(st.one_of(st.just(nl), st.just(nl), st.integers(0, nl))), nl + draw(st.integers(2, 8)), 2 * nl + draw(st.integers(1, 5))]}
    if k == "cheb":
        return {"k": k, "n": draw(gen.size(2, 40, 2, 3, 5, 9, 17, 33)), "iv": draw(gen.interval())}
    if k == "fd":
        return {"k": k, "n": draw(gen.size(9, 60, 9, 10)), "iv": draw(gen.interval())}
    if k == "sph":
        return {"k": k, "res": draw(gen.sphere_res(8))}
    nx = draw(gen.size(9, 14))
    cl = draw(st.sampled_from([10.0, 20.0]))
    return {"k": k, "res": draw(gen.sphere_res(3)), "nx": nx, "rad": [cl, 1.9, draw(st.sampled_from([cl, 8.0]))],
            "m": draw(st.sampled_from([[1.0, 0.5], [1.0, 0.0], [0.9, -0.9]])), "dt": draw(st.sampled_from([1e-3, 1e-2])), "V": draw(st.sampled_from([0.0, 1.0]))}


@st.composite
def strat(draw, tier):
    c = {"variant": draw(st.sampled_from(VARIANTS)), "objs": draw(st.lists(obj(), min_size=2, max_size=6)), "loop": draw(st.integers(0, 3)) == 0}
    c["ops"] = draw(st.lists(st.tuples(st.sampled_from(["new", "use", "use", "use", "del"]), st.integers(0, 5), st.integers(0, 20), st.integers(0, 99)).map(list),
                             min_size=4, max_size=24 if tier == "quick" else 60))
    if draw(st.integers(0, 29)) == 17:      # a crowd of one kind, a few sizes
        few = [x for x in c["objs"] if x["k"] == c["objs"][0]["k"] and x.get("n", 0) < 60 and x.get("res", [0])[0] < 9][:3]
        if few:
            n = draw(st.sampled_from([9, 10, 17, 18, 33, 34]))
            c["objs"] = [dict(few[i % len(few)]) for i in range(n)]
            c["loop"] = False
            c["ops"] = crowd(n, draw(st.integers(0, 20)), draw(st.integers(1, 7)))
    return c


def crowd(n, u, step):
    """n live objects: all used, every third destroyed, the others used, those made again and all used."""
    ops = [["new", i, 0, 0] for i in range(n)] + [["use", i * step % n, u + i % 2, u] for i in range(n)]
    ops += [["del", i, 0, 0] for i in range(0, n, 3)] + [["use", i, u, u] for i in range(n) if i % 3]
    return ops + [["new", i, 0, 0] for i in range(0, n, 3)] + [["use", i, u + i % 2, u] for i in range(n)]


def strategy(tier):
    return strat(tier)


def corners(tier):
    out = []
    objs = [{"k": "cheb", "n": 9, "iv": [-1.0, 1.0]}, {"k": "cheb", "n": 9, "iv": [1.0, 5.0]}, {"k": "cheb", "n": 2, "iv": [0.0, 1.0]},
            {"k": "fd", "n": 9, "iv": [-1.0, 1.0]}, {"k": "fd", "n": 9, "iv": [0.0, 3.0]}, {"k": "fd", "n": 30, "iv": [0.0, 3.0]},
            {"k": "sph", "res": [1, 0, 2, 1]}, {"k": "sph", "res": [4, 4, 6, 9]}, {"k": "sph", "res": [4, 2, 6, 9]},
            {"k": "sph", "res": [43, 43, 45, 90]}, {"k": "sph", "res": [33, 31, 36, 70]}, {"k": "cheb", "n": 513, "iv": [1.0, 5.0]}, {"k": "fd", "n": 513, "iv": [0.0, 3.0]},
            {"k": "grid", "res": [2, 2, 4, 8], "nx": 9, "rad": [10.0, 1.9, 10.0], "m": [1.0, 0.5], "dt": 1e-3, "V": 0.0},
            {"k": "grid", "res": [2, 1, 4, 8], "nx": 9, "rad": [10.0, 1.9, 8.0], "m": [1.0, 0.5], "dt": 1e-3, "V": 0.0},
            {"k": "eom", "res": [2, 2, 3, 5], "nx": 10, "rad": [20.0, 1.9, 20.0], "m": [1.0, 0.5], "dt": 1e-3, "V": 1.0},
            {"k": "eom", "res": [2, 2, 3, 5], "nx": 10, "rad": [20.0, 1.9, 20.0], "m": [1.0, -0.9], "dt": 1e-2, "V": 0.0}]
    for v in VARIANTS:
        for i in range(0, len(objs) - 1):
            a, b = objs[i], objs[i + 1]
            ops = [["new", 0, 0, 0], ["new", 1, 0, 0]]
            n = max(len(USES[a["k"]]), len(USES[b["k"]]))
            for u in range(n):
                ops += [["use", 0, u, u], ["use", 1, u, u + 1]]
            ops += [["del", 1, 0, 0]] + [["use", 0, u, u + 2] for u in range(n)] + [["new", 1, 0, 0], ["del", 0, 0, 0]] + [["use", 1, u, u + 2] for u in range(n)]
            out.append({"variant": v, "objs": [a, b], "loop": False, "ops": ops})
        if v == VARIANTS[len(tier) % 4] or tier != "quick":
            for k, n in ((0, 40), (0, 300), (3, 300), (7, 40), (7, 260), (13, 20), (15, 10)):     # many objects at once
                o = objs[k]
                alt = dict(o, n=o["n"] + 5) if "n" in o else dict(o, res=[2, 2, 3, 6]) if o["k"] == "sph" else dict(o, nx=o["nx"] + 2)
                out.append({"variant": v, "objs": [dict(o if i % 3 else alt) for i in range(n)], "loop": False, "ops": crowd(n, k, 7)})
        big = {"k": "sph", "res": [84, 84, 86, 170]}       # more than 2^13 points
        if v in VARIANTS[len(tier) % 2::2] or tier != "quick":
            out.append({"variant": v, "objs": [big, big], "loop": True, "ops": [["use", 0, u, 5] for u in range(len(USES["sph"]))]})
        for o in objs:
            out.append({"variant": v, "objs": [o, o], "loop": True, "ops": [["use", 0, u, x] for u in range(len(USES[o["k"]])) for x in (u, 37 + 8 * (u % 4))]})
    return out


class Obj:
    """One live object of either process."""

    def __init__(self, s, ctx, variant, o):
        self.s, self.o, self.v = s, o, variant
        k = o["k"]
        if k == "grid":
            self.d = ctx.tmp("csv")
        if k in ("cheb", "fd"):
            self.h = s.call(k + "_new", I=[o["n"]], D=o["iv"]).I[0]
            self.N = o["n"]
        elif k == "sph":
            self.h = s.call("sph_new", I=o["res"]).I[0]
            self.N = o["res"][2] * o["res"][3]
            self.Y = int(s.call("sph_info", I=[self.h]).I[3])
        else:
            self.h = s.call("grid_new", D=o["rad"], I=[o["nx"]] + o["res"]).I[0]
            self.N = o["nx"] * o["res"][2] * o["res"][3]
            if k == "eom":
                self.g = self.h
                P = new_params(s, ctx, grid_params({"res": o["res"], "nx": o["nx"], "rad": o["rad"], "M": o["m"][0], "a": o["m"][1]},
                                                   {"V2": o["V"]}, dt=o["dt"], l_ang=min(1, o["res"][0]), m_ang=0, rl=2.0, ru=30.0))
                self.P = P
                self.e = s.call("eom_new", I=[self.g, P]).I[0]

    def delete(self):
        k = self.o["k"]
        if k in ("cheb", "fd", "sph", "grid"):
            self.s.call({"cheb": "cheb", "fd": "fd", "sph": "sph", "grid": "grid"}[k] + "_del", I=[self.h])
        # an evolution object keeps its grid; both go at the end of the case

    def csv(self, name, v):
        """The numbers written to one file, by way of one name for the process."""
        s = self.s
        if name == "csv_n" and not ref.is_cheb(self.v):
            name = "csv_R"
        t = os.path.join(self.d, "d")
        if name == "csv":
            s.call("csv", I=[3], S=[t], A=[v[:9].copy()])
        elif name == "csv_xyz":
            s.call("csv_xyz", I=[self.h, False, 3], D=[0.2, 1e300, -1.0, 1e300], S=[t], A=[v])
        else:
            s.call(name, I=[self.h, False, 3], S=[t], A=[v])
        f = t + {"csv": "", "csv_xyz": "_XYZ", "csv_R": "_RPsl", "csv_n": "_NPsl"}[name] + "_3.csv"
        check(os.path.exists(f), name + " wrote no file")
        with open(f) as fh:
            x = fh.read()
        os.remove(f)
        return [np.array([float(y) for y in x.replace("\n", ",").split(",") if y])]

    def use(self, u, seed):
        """(name, list of (array, error scale)); deterministic in (object, u, seed)."""
        s, o, k, N = self.s, self.o, self.o["k"], self.N
        name = USES[k][u % len(USES[k])]
        r = np.random.default_rng(seed)
        v = r.uniform(-1, 1, N)
        if seed % 8 == 3:           # a field that has failed
            v[int(r.integers(0, N))] = [np.nan, np.inf][seed % 3 == 0]
        elif seed % 8 == 5:         # nothing there, uniform, a single point, one half empty
            z = (seed // 8) % 4
            v = np.zeros(N) if z == 0 else np.full(N, 0.5) if z == 1 else np.where(np.arange(N) == seed % N, v, 0.0) if z == 2 else np.where(np.arange(N) < N // 2, v, 0.0)
        nan = lambda n: np.full(n, np.nan)
        if k == "cheb":
            if name == "info":
                return name, s.call("cheb_info", I=[self.h]).A
            if name == "filter":
                return name, s.call("cheb_filter", I=[self.h], A=[v]).A
            return name, s.call("cheb_" + name, I=[self.h], A=[v, nan(N)]).A[:1]
        if k == "fd":
            if name == "info":
                return name, s.call("fd_info", I=[self.h]).A
            if name == "filter":
                return name, s.call("fd_filter", I=[self.h], A=[v]).A
            return name, s.call("fd_" + name, I=[self.h], A=[v, nan(N)]).A[:1]
        if k == "sph":
            h = self.h
            if name == "info":
                return name, s.call("sph_info", I=[h]).A
            if name == "to_Sph":
                y = s.call("sph_to_Ylm", I=[h], A=[v]).A[0]
                return name, s.call("sph_to_Sph", I=[h], A=[y]).A[:1]
            if name == "power":
                return name, s.call("sph_power", I=[h, o["res"][0]], A=[v]).A[:1]
            if name == "ylm":
                l = seed % (o["res"][0] + 1)
                return name, s.call("sph_ylm", I=[h, l, min(l, o["res"][1], seed % 3)]).A
            n2 = (o["res"][0] + 1) ** 2
            if name in ("to_Ylm_c", "to_Sph_c") and o["res"][1] == o["res"][0]:
                z = np.concatenate([v, r.uniform(-1, 1, N)])
                if name == "to_Ylm_c":
                    return name, s.call("sph_to_Ylm_c", I=[h, n2], A=[z]).A[:1]
                return name, s.call("sph_to_Sph_c", I=[h], A=[r.uniform(-1, 1, 2 * n2)]).A[:1]
            if name in ("to_Ylm_c", "to_Sph_c"):
                name = "dphi"
            if name in ("raise", "lower", "X") and o["res"][1] < o["res"][0]:
                name = "lap"
            return name, s.call("sph_" + name, I=[h], A=[v]).A[:1]
        if k == "grid":
            h = self.h
            nx, nl = o["nx"], o["res"][0]
            if name == "7" and not ref.is_cheb(self.v):
                name = "6"
            if name == "2" and o["res"][1] < o["res"][0]:
                name = "1"
            if name in "01234567":
                n = nx * nl if name in "67" else N
                return name, s.call("grid_op", I=[h, int(name)], A=[v, nan(n) if name not in "67" else np.zeros(n)]).A[:1]
            if name == "filter":
                return name, s.call("grid_filter", I=[h], A=[v]).A
            if name == "res":
                return name, [s.call("grid_res", I=[h], D=[0.01], A=[v, v[::-1].copy(), v * v]).D]
            if name == "tv":
                return name, [s.call("grid_tv", I=[h], A=[v]).D]
            if name == "ylm":
                return name, s.call("grid_ylm", I=[h, 1, 0]).A
            if name.startswith("csv"):
                return name, self.csv(name, v)
            if name == "coords":
                return name, s.call("grid_coords", I=[h]).A
            w = seed % 7
            sz = [nx, o["res"][2], o["res"][3], nx, nx * o["res"][2], nx * o["res"][3], o["res"][2] * o["res"][3]][w]
            src = r.uniform(-1, 1, nx * nl) if w == 3 else v
            return "row", s.call("grid_row", I=[h, w, 0, 0, 0], A=[src, nan(sz)]).A[:1]
        v *= 0.3
        p = r.uniform(-1, 1, N) * 0.3
        if name == "k":
            return name, s.call("eom_k", I=[self.e, self.g], A=[v, p, nan(N), nan(N)]).A[:2]
        if name == "rho":
            return name, s.call("eom_rho", I=[self.e, self.g], A=[v, p, nan(N)]).A[:1]
        if name == "id":
            return name, s.call("id", I=[self.P, self.g], A=[np.zeros(N), np.zeros(N)]).A[:2]
        F = [s.call("field_new", I=[N], D=[0.0], S=["f"]).I[0] for _ in range(2)]
        for h, x in zip(F, (v, p)):
            s.call("field_set", I=[h, 0], A=[x])
        s.call("eom_step", I=[self.e, self.g] + F)
        return name, [s.call("field_get", I=[h]).A[2] for h in F]


def compare(name, got, want):
    check(len(got) == len(want), name + ": different number of results")
    for a, b in zip(got, want):
        a, b = np.asarray(a), np.asarray(b)
        check(a.shape == b.shape, name + ": different sizes")
        fin = b[np.isfinite(b)]
        m = float(np.max(np.abs(fin))) if fin.size else 0.0
        with np.errstate(invalid="ignore"):
            ok = (np.abs(a - b) <= 1e-9 * m) | (a == b) | (np.isnan(a) & np.isnan(b))
        check(bool(np.all(ok)), lambda: "%s: index %d is %r, alone it is %r" % (name, np.argmin(ok), a[np.argmin(ok)], b[np.argmin(ok)]))


def run(case, ctx):
    v = case["variant"]
    s = ctx.server(v)
    lab = set()
    if case["loop"]:
        o = case["objs"][0]
        if ctx.flavour == "opt":     # per-thread free lists would count as memory in use
            s = ctx.server(v, env={"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"})
        uses = [(x[2], x[3]) for x in case["ops"]]

        def once():
            s.call("reset")
            b = Obj(s, ctx, v, o)
            for _ in range(2):
                for u, sd in uses:
                    b.use(u, sd)
            s.call("reset")
            s.call("trunc")
        if ctx.flavour == "opt":
            for _ in range(3):
                once()
            h0 = s.call("heap").I[0]
            for _ in range(12):
                once()
            h1 = s.call("heap").I[0]
            check(h1 - h0 < 100, lambda: "heap in use grew by %d bytes in 12 create/use/destroy rounds of %s with %d calls" % (h1 - h0, o["k"], 2 * len(uses)))
            # a live object used again and again
            b = Obj(s, ctx, v, o)
            no = [(u, sd) for u, sd in uses if not (o["k"] == "eom" and USES["eom"][u % 4] == "step")]

            def again():
                for u, sd in no:
                    b.use(u, sd)
                s.call("trunc")
            for _ in range(3):
                again()
            h0 = s.call("heap").I[0]
            for _ in range(20):
                again()
            h1 = s.call("heap").I[0]
            check(h1 - h0 < 170, lambda: "heap in use grew by %d bytes in %d calls on one %s object" % (h1 - h0, 20 * len(no), o["k"]))
            lab.add("heap measured")
        else:
            for _ in range(2):
                once()
        lab.add("loop")
        return sorted(lab)
    solo = ctx.server(v, env={"MALLOC_PERTURB_": "85"})
    live = {}
    memo = {}
    touched = False
    for op, i, u, sd in case["ops"]:
        i %= len(case["objs"])
        o = case["objs"][i]
        if op == "new" or (op == "use" and i not in live):
            if i in live:
                continue
            live[i] = Obj(s, ctx, v, o)
            touched = True
        if op == "del":
            if i in live and o["k"] != "eom":
                live.pop(i).delete()
                touched = True
        elif op == "use":
            name, got = live[i].use(u, sd)
            key = (i, name, sd, u % len(USES[o["k"]]))
            if key not in memo:
                solo.call("reset")
                memo[key] = Obj(solo, ctx, v, o).use(u, sd)[1]
            compare("%s %s on a %s" % (name, "of size %s" % o.get("n", o.get("res")), o["k"]), got, memo[key])
            if touched and len(live) > 1:
                lab.add("shared")
            lab.add(o["k"])
    solo.call("reset")
    return sorted(lab)


def nontrivial(case, labels):
    return "shared" in labels or "heap measured" in labels

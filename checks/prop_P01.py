from hypothesis import strategies as st
import math, os, subprocess
import numpy as np
import fw, gen, ref
from fw import check
from kerrbase import DEFAULTS

RULE = ("1-2 parameter files per case: full assignments (integers to 2^31-1, doubles of every normal magnitude in shortest, 17-digit, fixed or "
        "exponent form, arbitrary words), lines in random order, up to 15 foreign lines (names that extend, prefix or case-change known names, "
        "blank lines, blanks, tabs or carriage returns after the value, lists, values that are parameter names), sometimes 300 or 9000 unknown names or 1000-character lines; or one parameter or the whole file missing, given to the real main programs in an empty "
        "output directory. Non-trivial: reordered with at least one foreign line, or an omission.")
COUNT = {"quick": 12000, "thorough": 150000}
TARGETS = [("fd_lon", "opt"), ("fd_lon", "san"), ("cheb_phi", "opt"), ("cheb_phi", "san"), ("fd_lon", "opt", "main"), ("cheb_lon", "opt", "main"),
           ("fd_lon", "san", "main")]

INTS = ["nt", "nx", "nl", "nm", "nlat", "nphi", "t_step_save", "l_ang", "m_ang"]
DBL = ["dt", "compactification_length", "Rmax", "Rmin", "black_hole_mass", "black_hole_spin", "km1", "k0", "k1", "k2", "V2", "V3", "V4", "amp", "rl", "ru"]
STR = ["initial_data_type", "initial_data_direction"]
KEYS = list(DEFAULTS)
assert sorted(KEYS) == sorted(INTS + DBL + STR)

anyd = st.one_of(gen.fl(-100, 100), st.floats(allow_nan=False, allow_infinity=False, allow_subnormal=False), gen.fl(0, 1),
                 st.sampled_from([0.0, -0.0, 1.0, 0.1, 1 / 3, 2.2250738585072014e-308, 1.7976931348623157e308, 1e-5, 1e22, 123456789.0]))
anyi = st.one_of(st.integers(0, 100), st.integers(0, 2 ** 31 - 1))
word = st.one_of(st.sampled_from(["compact_pulse", "ingoing", "outgoing", "time_symmetric", "Rmin", "nx", "0", "true", "None"]),
                 st.text("abcXYZ019_-./:=#", min_size=1, max_size=12), st.text("abcdefgXYZ_-.9/é", min_size=13, max_size=90),
                 st.sampled_from(["x" * 255, "x" * 256, "y" * 1023, "y" * 5000, "Ingoing", "INGOING"]))


@st.composite
def pfile(draw):
    vals = {k: draw(anyi) for k in INTS}
    vals.update({k: draw(anyd) for k in DBL})
    vals.update({k: draw(word) for k in STR})
    fm = draw(st.lists(st.integers(0, 8), min_size=1, max_size=6))
    foreign = draw(st.lists(st.tuples(st.sampled_from(["ext", "pre", "case", "under", "blank", "bare", "list", "word", "namelast", "eq", "tab"]),
                                      st.integers(0, len(KEYS) - 1), st.integers(0, 60), st.integers(-5, 99)).map(list), max_size=15))
    return {"vals": vals, "fmt": fm, "order": draw(st.one_of(st.none(), st.integers(0, 10 ** 6))), "foreign": foreign,
            "nl": draw(st.booleans()), "pad": draw(st.sampled_from([0] * 29 + [1, 2, 3, 1, 2, 3, 5])), "tail": draw(st.sampled_from([None, None, 0, 1, 2, 3, 4]))}


@st.composite
def strat(draw, tier):
    c = {"variant": draw(st.sampled_from(["fd_lon", "cheb_phi"])), "files": draw(st.lists(pfile(), min_size=1, max_size=2))}
    c["miss"] = draw(st.one_of(st.none(), st.none(), st.none(), st.none(), st.none(), st.integers(0, len(KEYS))))
    return c


def strategy(tier):
    return strat(tier)


def corners(tier):
    out = []
    base = {k: (DEFAULTS[k]) for k in KEYS}
    distinct = {k: (i + 2 if k in INTS else i + 0.1 if k in DBL else "w%d" % i) for i, k in enumerate(KEYS)}
    for o in (None, 1, 2, 3):
        out.append({"variant": "fd_lon", "files": [{"vals": distinct, "fmt": [0], "order": o, "foreign": [], "nl": True}], "miss": None})
    allf = [["ext", i, i, 7] for i in range(len(KEYS))]
    for kind in ["ext", "pre", "case", "under", "bare", "namelast", "eq"]:
        f = [[kind, i, 0, 7] for i in range(len(KEYS))]
        out.append({"variant": "cheb_phi", "files": [{"vals": distinct, "fmt": [0, 1, 2], "order": 5, "foreign": f, "nl": False}], "miss": None})
    for i in range(len(KEYS) + 1):
        f = [["ext", i % len(KEYS), 0, 7], ["pre", i % len(KEYS), 0, 7], ["namelast", i % len(KEYS), 0, 7]]
        out.append({"variant": "fd_lon", "files": [{"vals": base, "fmt": [0], "order": i, "foreign": f, "nl": True}], "miss": i})
    for p in (1, 2, 3, 5, 7):
        out.append({"variant": "fd_lon", "files": [{"vals": distinct, "fmt": [0], "order": p, "foreign": [], "nl": True, "pad": p}], "miss": None})
    return out


def fmt(v, k):
    if isinstance(v, str):
        return v
    if isinstance(v, int):
        return "%04d" % v if k == 6 else str(v)      # leading zeros
    if k == 0:
        return repr(v)
    if k == 1:
        return "%.17g" % v
    if k == 2:
        return "%.16e" % v
    if k == 3 and v == int(v) and abs(v) < 1e15 and not (v == 0 and math.copysign(1, v) < 0):
        return str(int(v))
    if k == 4 and 1e-4 < abs(v) < 1e15:
        return "%.22f" % v
    if k == 5:
        return repr(v) + "  "
    if k == 6:
        return repr(v).upper()
    if k == 8:                  # no digit before or after the point
        t = repr(v)
        if "e" not in t and "." in t:
            return t.replace("0.", ".", 1) if t.lstrip("-").startswith("0.") and t.lstrip("-") != "0.0" else t[:-1] if t.endswith(".0") else t
    if k == 7 and math.copysign(1, v) > 0:
        return "+" + repr(v)
    return repr(v)


def text(f, drop=None):
    lines = []
    for i, k in enumerate(KEYS):
        if k != drop:
            t = f.get("tail")
            ws = ("", " ", "\t", "   ", "\r")[t if t != 3 or t is None else (i % 5)] if t is not None else ""
            lines.append("%s %s%s%s" % (k, "  " if t == 2 else "", fmt(f["vals"][k], f["fmt"][i % len(f["fmt"])]), ws))
    if f["order"] is not None:
        np.random.default_rng(f["order"]).shuffle(lines)
    lower = {k.lower() for k in KEYS}
    for kind, i, pos, val in f["foreign"]:
        k = KEYS[i]
        if kind == "ext":
            l = "%s%s %d" % (k, ["_0", "2", "x", "s"][val % 4], val)
        elif kind == "pre":
            p = k[:-1]
            l = "%s %d" % (p, val) if p not in KEYS else "%d" % val
        elif kind == "case":
            p = k.swapcase()
            l = "%s %d" % (p, val) if p not in KEYS else "zz 1"
        elif kind == "under":
            l = "_%s %d" % (k, val)
        elif kind == "blank":
            l = "" if val % 2 else "   "
        elif kind == "bare":
            l = k + "_"
        elif kind == "list":
            l = "zlist 1 2 %d" % val
        elif kind == "word":
            l = "home_dir /tmp/%s" % k
        elif kind == "namelast":
            l = "other %s %d" % (k, val)
        elif kind == "eq":
            l = "%s=%d" % (k, val)
        else:
            l = "#%s\t%d" % (k, val)
        name = l.split(" ")[0]
        if name in KEYS:
            continue
        lines.insert(pos % (len(lines) + 1), l)
    pad = f.get("pad", 0)
    if pad:                     # long lines and long files
        r = np.random.default_rng(pad)
        many = ["u%d_%s %r" % (i, KEYS[i % len(KEYS)], float(i)) for i in range(9000 if pad & 4 else 300)]
        if pad & 1:
            for l in many:
                lines.insert(int(r.integers(0, len(lines) + 1)), l)
        if pad & 2:
            for k in range(3):
                lines.insert(int(r.integers(0, len(lines) + 1)), "zz%d %s" % (k, "x" * 70 + " " + " ".join(KEYS) * 40))
    return "\n".join(lines) + ("\n" if f["nl"] else "")


def info(s, h):
    r = s.call("params_info", I=[h])
    d = {}
    for k, v in zip(INTS, r.I):
        d[k] = int(v)
    for k, v in zip(DBL, r.D):
        d[k] = float(v)
    for k, v in zip(STR, r.S):
        d[k] = v
    return d


def same(a, b):
    if isinstance(b, float):
        return np.float64(a).tobytes() == np.float64(b).tobytes()
    return a == b


def run(case, ctx):
    lab = set()
    if case["miss"] is not None:
        f = dict(case["files"][0], vals=dict(DEFAULTS))
        drop = KEYS[case["miss"]] if case["miss"] < len(KEYS) else None
        d = ctx.tmp("p")
        path = os.path.join(d, "params.txt")
        if drop:
            with open(path, "w", newline="") as fh:
                fh.write(text(f, drop))
        for key in [k for k in ctx.bins if k[2] == "main" and k[1] == ctx.flavour]:
            o = ctx.tmp("out")
            env = dict(os.environ, OMP_NUM_THREADS="1", ASAN_OPTIONS="detect_leaks=0")
            try:
                p = subprocess.run([ctx.bins[key], path, o], cwd=o, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   timeout=120, env=env)
            except subprocess.TimeoutExpired:
                raise fw.Inconclusive("main did not stop within 120 s")
            t = p.stdout.decode(errors="replace")
            check(not os.listdir(o), lambda: "%s missing: output written: %s" % (drop or "file", os.listdir(o)[:5]))
            check("Beginning evolution" not in t, lambda: "%s missing: evolution started" % (drop or "file"))
            check("runtime error" not in t and "AddressSanitizer" not in t, lambda: "%s missing: %s" % (drop or "file", t[-600:]))
            if drop:
                said = [l for l in t.split("\n") if drop in l.replace("\t", " ").split() or drop in l.replace(":", " ").replace("'", " ").split()]
                check(bool(said), lambda: "%s missing: the program does not name it: %r" % (drop, t[-300:]))
            else:
                check(t.strip() != "", "parameter file missing: nothing is reported")
        lab.add("omission" if drop else "no file")
        return sorted(lab)
    s = ctx.server(case["variant"])
    hs = []
    path = os.path.join(s.dir, "params.txt")
    for f in case["files"]:
        t = text(f)
        with open(path, "w", newline="") as fh:
            fh.write(t)
        hs.append(s.call("params_new", S=[path]).I[0])
        with open(path, newline="") as fh:
            check(fh.read() == t, "reading changed the parameter file")
        if f["order"] is not None:
            lab.add("reordered")
        if f["foreign"]:
            lab.add("foreign")
    for h, f in zip(hs, case["files"]):
        got = info(s, h)
        for k in KEYS:
            check(same(got[k], f["vals"][k]), lambda: "%s read as %r, file says %r" % (k, got[k], f["vals"][k]))
    return sorted(lab)


def nontrivial(case, labels):
    return case["miss"] is not None or ("reordered" in labels and "foreign" in labels)

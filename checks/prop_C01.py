from hypothesis import strategies as st
import numpy as np
import fw, gen, ref
from fw import check, close, unchanged

TARGETS = [(v, f) for v in ("fd_lon", "cheb_lon") for f in ("opt", "san")]

RULE = ("n in 2..600, sometimes to 2049, corner cases to 70001 (small, medium, large, odd, even, power-of-two+1), interval of 7 kinds, a history of 1-10 "
        "transform/filter/derivative calls over three array slots (two alternating objects) with NaN-filled outputs; "
        "every forward/backward call is compared with direct cosine sums. Non-trivial: n>=3, at least 3 calls incl. one "
        "forward and one backward, data not constant.")
DECOYS = True
COUNT = {"quick": 30000, "thorough": 360000}

SIZES = (2, 3, 4, 5, 9, 17, 33, 65, 129, 257, 8, 16, 64, 128, 300, 513)


def strategy(tier):
    hi = 300 if tier == "quick" else 600
    return st.fixed_dictionaries({
        "variant": st.sampled_from(["fd_lon", "cheb_lon"]),
        "n": gen.n1d(2, hi, gen.CHEB_BIG, *SIZES),
        "n2": gen.size(2, 40),
        "iv": gen.interval(),
        "data": st.lists(gen.data(), min_size=1, max_size=3),
        "ops": st.lists(st.tuples(st.sampled_from(["to_ch", "to_po", "to_ch", "to_po", "der", "filter", "other"]),
                                  st.integers(0, 2), st.integers(0, 2)).map(list), min_size=1, max_size=10),
    })


def corners(tier):
    out = []
    for n in (2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 31, 32, 33, 64, 65, 100, 127, 128, 129, 200, 256, 257):
        for iv in ([-1.0, 1.0], [1.3, 7.25], [-3.0, 45.0]):
            out.append({"variant": "fd_lon", "n": n, "n2": 5, "iv": iv,
                        "data": [{"kind": "rand", "seed": n, "exp": 0}],
                        "ops": [["to_ch", 0, 1], ["to_po", 1, 2], ["to_ch", 0, 1], ["to_po", 1, 2], ["other", 0, 0],
                                ["to_po", 0, 1], ["to_ch", 1, 2], ["to_ch", 1, 0]]})
    for i, n in enumerate(gen.CHEB_LONG):
        out.append({"variant": ["fd_lon", "cheb_lon"][i % 2], "n": n, "n2": 5, "iv": [1.3, 7.25], "data": [{"kind": "rand", "seed": n, "exp": 0}],
                    "ops": [["to_ch", 0, 1], ["to_po", 1, 2], ["to_ch", 0, 1], ["der", 0, 0]]})
    return out


def run(case, ctx):
    s = ctx.server(case["variant"])
    n, (lo, up) = case["n"], case["iv"]
    h = s.call("cheb_new", I=[n], D=[lo, up]).I[0]
    r = s.call("cheb_info", I=[h])
    check(r.I[0] == n and r.D[0] == lo and r.D[1] == up, "accessors n/lower/upper differ from the arguments")
    sc = max(abs(lo), abs(up))
    close("collocation points", r.A[0], ref.cheb_nodes(n, lo, up), 16 * ref.EPS * sc)
    h2 = None
    slots = [gen.make(case["data"][i % len(case["data"])], n) for i in range(3)]
    T, A = ref.cheb_T(n), ref.cheb_A(n)
    labels = set()
    memo = {}
    for op, a, b in case["ops"]:
        v = slots[a]
        if op == "other":
            if h2 is None:
                h2 = s.call("cheb_new", I=[case["n2"]], D=[lo, up]).I[0]
            w = np.cos(np.arange(case["n2"]))
            o = s.call("cheb_to_ch", I=[h2], A=[w, np.full(case["n2"], np.nan)]).A[0]
            close("second object", o, ref.cheb_A(case["n2"]) @ w, 1e-13 * case["n2"])
            continue
        if op == "filter":
            slots[a] = s.call("cheb_filter", I=[h], A=[v]).A[0]
            continue
        o, back = s.call("cheb_" + op, I=[h], A=[v, np.full(n, np.nan)]).A
        unchanged("input of " + op, v, back)
        if op == "der":
            if np.max(np.abs(o)) < 1e140:
                slots[b] = o
            continue
        m = float(np.max(np.abs(v)))
        tol = 64 * ref.EPS * (np.sqrt(n) + 4)
        if op == "to_ch":
            close("forward transform", o, A @ v, tol * m)
        else:
            close("backward transform", o, T @ v, tol * float(np.sum(np.abs(v))))
        key = (op, v.tobytes())
        if key in memo:
            check(fw.same_bits(memo[key], o), op + " gave two different answers for the same input")
        memo[key] = o
        labels.add(op)
        if np.max(np.abs(o)) < 1e140:
            slots[b] = o
    # round trips
    v = slots[0]
    m = float(np.max(np.abs(v)))
    c = s.call("cheb_to_ch", I=[h], A=[v, np.zeros(n)]).A[0]
    w = s.call("cheb_to_po", I=[h], A=[c, np.zeros(n)]).A[0]
    close("round trip", w, v, 64 * ref.EPS * (np.sqrt(n) + 4) * max(m, float(np.sum(np.abs(c)))))
    if h2 is not None:
        labels.add("two objects")
    if n >= 200:
        labels.add("n>=200")
    return sorted(labels)


def nontrivial(case, labels):
    return (case["n"] >= 3 and len(case["ops"]) >= 3 and "to_ch" in labels and "to_po" in labels
            and any(d["kind"] != "const" for d in case["data"]))

"""Check framework: worker pool, generators, replay, evidence."""
import hashlib, importlib, json, multiprocessing as mp, os, select, shutil, signal, struct
import subprocess, sys, tempfile, time, traceback
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "harness"))
import build as B
import decoy as DC

VARIANTS = ["fd_lon", "cheb_lon", "fd_phi", "cheb_phi"]
NWORK = 8
OP_TIMEOUT = 180.0


class Violation(Exception):
    pass


class Inconclusive(Exception):
    pass


class Reply:
    __slots__ = ("op", "I", "D", "S", "A")


def _pack(op, I, D, S, A):
    b = bytearray()
    o = op.encode()
    b += struct.pack("<I", len(o)) + o
    b += struct.pack("<I", len(I)) + np.asarray(list(I), dtype="<i8").tobytes()
    b += struct.pack("<I", len(D)) + np.asarray(list(D), dtype="<f8").tobytes()
    b += struct.pack("<I", len(S))
    for s in S:
        e = s.encode() if isinstance(s, str) else s
        b += struct.pack("<I", len(e)) + e
    b += struct.pack("<I", len(A))
    for a in A:
        a = np.ascontiguousarray(a, dtype="<f8")
        b += struct.pack("<Q", a.size) + a.tobytes()
    return struct.pack("<I", len(b)) + bytes(b)


def _unpack(b):
    r = Reply()
    o = 0

    def u32():
        nonlocal o
        v = struct.unpack_from("<I", b, o)[0]
        o += 4
        return v
    n = u32(); r.op = b[o:o + n].decode(); o += n
    n = u32(); r.I = np.frombuffer(b, "<i8", n, o).copy(); o += 8 * n
    n = u32(); r.D = np.frombuffer(b, "<f8", n, o).copy(); o += 8 * n
    n = u32(); r.S = []
    for _ in range(n):
        k = u32(); r.S.append(b[o:o + k].decode(errors="replace")); o += k
    n = u32(); r.A = []
    for _ in range(n):
        k = struct.unpack_from("<Q", b, o)[0]; o += 8
        r.A.append(np.frombuffer(b, "<f8", k, o).copy()); o += 8 * k
    return r


VALGRIND = ["valgrind", "--quiet", "--error-exitcode=78", "--exit-on-first-error=yes", "--num-callers=20"]


class Server:
    """One process with the library linked in."""

    def __init__(self, path, flavour, scratch, env_extra=None):
        self.flavour = flavour
        self.dir = tempfile.mkdtemp(prefix="srv", dir=scratch)
        self.out = os.path.join(self.dir, "stdout")
        self.errpath = os.path.join(self.dir, "stderr")
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        env = {k: v for k, v in os.environ.items() if not k.startswith(("OMP_", "GOMP_"))}
        env.update(OMP_NUM_THREADS="1", OMP_WAIT_POLICY="passive", OMP_DYNAMIC="false",
                   ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=0:detect_stack_use_after_return=0:exitcode=77",
                   TSAN_OPTIONS="exitcode=66:halt_on_error=1:history_size=4",
                   UBSAN_OPTIONS="print_stacktrace=1:exitcode=77", LC_ALL="C")
        if flavour == "opt":
            env["MALLOC_PERTURB_"] = "171"
        env.update(env_extra or {})
        self.err = open(self.errpath, "wb")
        pre = VALGRIND if flavour == "vg" else []
        self.p = subprocess.Popen(pre + [path, self.out, str(r1), str(w2)], pass_fds=(r1, w2), cwd=self.dir,
                                  stdin=subprocess.DEVNULL, stdout=self.err, stderr=self.err, env=env)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2
        self.alive = True
        self.decoy = None

    def _read(self, n, tmax):
        out = bytearray()
        while len(out) < n:
            left = tmax - time.time()
            if left <= 0 or not select.select([self.r], [], [], left)[0]:
                raise TimeoutError
            c = os.read(self.r, min(n - len(out), 1 << 20))
            if not c:
                raise EOFError
            out += c
        return bytes(out)

    def call(self, op, I=(), D=(), S=(), A=(), timeout=OP_TIMEOUT, raw=False):
        d = self.decoy
        if d is None or raw:
            return self._call(op, I, D, S, A, timeout, raw)
        self.decoy = None           # no decoys for the decoys' own calls
        try:
            if op in DC.NEW:
                made = d.before_new(self, op, I, D, S)
                r = self._call(op, I, D, S, A, timeout, raw)
                d.after_new(self, op, I, D, S, int(r.I[0]), made)
                return r
            if op in DC.PURE or op in DC.READ:
                d.before_call(self, op, I, D, A)
            return self._call(op, I, D, S, A, timeout, raw)
        finally:
            self.decoy = d

    def _call(self, op, I, D, S, A, timeout, raw):
        if not self.alive:
            raise Inconclusive("server gone")
        msg = _pack(op, I, D, S, A)
        try:
            mv = memoryview(msg)
            while mv:
                k = os.write(self.w, mv[:1 << 16])
                mv = mv[k:]
            t = time.time() + timeout
            n = struct.unpack("<I", self._read(4, t))[0]
            r = _unpack(self._read(n, t))
        except TimeoutError:
            self.kill()
            raise Inconclusive("no answer to %s within %gs" % (op, timeout))
        except (EOFError, BrokenPipeError):
            self.alive = False
            rc = self.p.wait()
            self.kill()
            if rc == -signal.SIGKILL:
                raise Inconclusive("process killed during " + op)
            raise Violation("operation %s ended the process (status %s): %s" % (op, rc, self.stderr()))
        if r.op == "err":
            if raw:
                return r
            if r.S[0].startswith("server:"):
                raise RuntimeError(r.S[0])
            if "bad_alloc" in r.S[0]:
                raise Inconclusive(r.S[0])
            raise Violation("operation %s threw %s" % (op, r.S[0]))
        return r

    def stdout(self):
        with open(self.out, "rb") as f:
            return f.read().decode(errors="replace")

    def stderr(self):
        try:
            with open(self.errpath, "rb") as f:
                s = f.read().decode(errors="replace")
        except OSError:
            return ""
        i = max(s.find("ERROR: "), s.find("WARNING: ThreadSanitizer"), s.find("==") if self.flavour == "vg" else -1)
        j = s.find("runtime error")
        if i >= 0:
            s = s[i:]
        elif j >= 0:
            s = s[max(0, j - 200):]
        return s[:1500]

    def kill(self):
        self.alive = False
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()
        for fd in (self.w, self.r):
            try:
                os.close(fd)
            except OSError:
                pass
        self.w = self.r = -1
        self.err.close()


class Ctx:
    def __init__(self, bins, flavour, scratch, seed=0, tier="quick"):
        self.bins, self.flavour, self.scratch, self.seed, self.tier = bins, flavour, scratch, seed, tier
        self.srv = {}
        self.tmps = []
        self.decoy = None

    def server(self, variant, flavour=None, fresh=False, env=None):
        fl = flavour or self.flavour
        key = (variant, fl, "server")
        if key not in self.bins:
            fl = [f for (v, f, k) in self.bins if v == variant and k == "server"][0]
            key = (variant, fl, "server")
        k2 = key + (tuple(sorted((env or {}).items())),)
        s = self.srv.get(k2)
        if s is None or not s.alive or fresh:
            if s is not None and s.alive:
                s.kill()
            s = self.srv[k2] = Server(self.bins[key], fl, self.scratch, env)
            s.decoy = self._decoy(k2)
        return s

    def _decoy(self, key):
        return DC.Decoy(self.decoy + len(key[0])) if self.decoy is not None else None

    def begin(self, decoy=None):
        self.decoy = decoy
        for k, s in self.srv.items():
            if s.alive:
                s.decoy = None
                s.call("reset")
                s.call("omp", I=[1, 1])
                s.call("trunc")
                s.decoy = self._decoy(k)

    def close(self):
        for s in self.srv.values():
            if s.alive:
                s.kill()

    def tmp(self, prefix="t"):
        d = tempfile.mkdtemp(prefix=prefix, dir=self.scratch)
        self.tmps.append(d)
        return d

    def drop_tmps(self):
        for d in self.tmps:
            if d.startswith(self.scratch + "/"):
                shutil.rmtree(d, ignore_errors=True)
        self.tmps = []


# ---------------------------------------------------------------- assertions
def fail(msg):
    raise Violation(msg)


def check(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def same_bits(a, b):
    a = np.ascontiguousarray(a, dtype=np.float64)
    b = np.ascontiguousarray(b, dtype=np.float64)
    return a.shape == b.shape and a.tobytes() == b.tobytes()


def unchanged(name, before, after):
    check(same_bits(before, after), lambda: "%s was modified: %s" % (name, _where(before, after)))


def _where(a, b):
    a = np.asarray(a, float).ravel(); b = np.asarray(b, float).ravel()
    if a.shape != b.shape:
        return "sizes %d vs %d" % (a.size, b.size)
    i = np.flatnonzero(~((a == b) | (np.isnan(a) & np.isnan(b))))
    return "index %s: %r -> %r" % (i[:3].tolist(), a[i[:3]].tolist(), b[i[:3]].tolist())


def close(name, got, want, tol):
    """|got-want| <= tol elementwise (tol scalar or array), all finite where want is finite."""
    got = np.asarray(got, float); want = np.asarray(want, float)
    if got.shape != want.shape:
        raise Violation("%s: shape %s, expected %s" % (name, got.shape, want.shape))
    tol = np.broadcast_to(np.asarray(tol, float), want.shape)
    with np.errstate(all="ignore"):
        d = np.abs(got - want)
        bad = ~(d <= tol)
    if bad.any():
        ix = np.argmax(np.where(np.isnan(d), np.inf, d / np.maximum(tol, 1e-300)))
        ii = np.unravel_index(ix, want.shape)
        raise Violation("%s: at %s got %r expected %r (difference %.3g, tolerance %.3g; %d of %d entries off)"
                        % (name, tuple(int(x) for x in ii), float(got[ii]), float(want[ii]), float(d[ii]),
                           float(tol[ii]), int(bad.sum()), want.size))


# ---------------------------------------------------------------- driver
def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


HISTORY = 150     # cases after which a worker starts fresh processes

class Stop(BaseException):
    pass


def execute(mod, case, ctx):
    """Runs the earlier cases of "_history" (if any), then the case itself, in the same processes."""
    for c in case.get("_history", []):
        _execute(mod, c, ctx)
    case = {k: v for k, v in case.items() if k != "_history"}
    return _execute(mod, case, ctx)


def _execute(mod, case, ctx):
    try:
        ctx.begin(int(hashlib.sha256(canon(case).encode()).hexdigest()[:8], 16) if getattr(mod, "DECOYS", False) else None)
        labels = mod.run(case, ctx)
        ctx.begin()             # destroys every object of the case
        return labels
    except Violation:
        # a failed oracle may have left the library in an odd state
        ctx.close()
        ctx.srv = {}
        raise
    except (ArithmeticError, LookupError, ValueError, TypeError, FileNotFoundError, AssertionError) as e:
        # the results do not have the form every oracle starts from
        ctx.close()
        ctx.srv = {}
        t = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation("results cannot be interpreted: %s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(t.filename), t.lineno)) from None
    finally:
        ctx.drop_tmps()


def _worker(wid, mod_name, tier, seed, bins, flavour, n, corners, found, q, tstop, scratch):
    try:
        os.environ["OMP_NUM_THREADS"] = "1"
        from hypothesis import given, settings, seed as hseed, HealthCheck, Phase
        mod = importlib.import_module(mod_name)
        ctx = Ctx(bins, flavour, tempfile.mkdtemp(prefix="w%d_" % wid, dir=scratch), seed, tier)
        st = {"n": 0, "hashes": set(), "labels": {}, "samples": [], "inc": 0, "skipped": 0, "best": None,
              "first": None, "tfail": None, "incmsg": None}
        hist = []

        def fails(c):
            """True if case c violates in processes of its own."""
            try:
                return replay_case(mod, dict(c, _flavour=flavour), bins, scratch, seed, tier) is not None
            except Inconclusive:
                return False

        def with_history(case):
            """The shortest suffix-then-subset of the worker's history after which the case fails, or None."""
            t = time.time()
            k = 1
            while True:
                h = hist[-k:]
                if fails(dict(case, _history=h)):
                    break
                if k >= len(hist) or time.time() > t + 120:
                    return None
                k *= 2
            i = 0
            while i < len(h) and time.time() < t + 180:
                g = h[:i] + h[i + 1:]
                if fails(dict(case, _history=g)):
                    h = g
                else:
                    i += 1
            return dict(case, _history=h)

        def one(case):
            if st["best"] is None and (found.is_set() or time.time() > tstop):
                st["skipped"] += 1
                return
            if st["tfail"] is not None and time.time() > st["tfail"] + 60:
                st["skipped"] += 1
                return          # stop shrinking
            case = json.loads(canon(case))
            if len(hist) >= HISTORY:
                ctx.close()
                ctx.srv = {}
                hist.clear()
            try:
                labels = execute(mod, case, ctx) or []
                hist.append(case)
            except Inconclusive as e:
                hist.clear()
                ctx.close()
                ctx.srv = {}
                st["inc"] += 1
                st["incmsg"] = str(e)
                return
            except Violation as e:
                if st["tfail"] is None:
                    found.set()
                    c = dict(case, _flavour=flavour)
                    if hist and not fails(case):
                        # depends on what the process did before
                        g = with_history(case)
                        if g is not None:
                            st["best"] = (dict(g, _flavour=flavour), str(e)[:2500])
                            raise Stop()
                    st["first"] = (c, str(e)[:2500])
                    st["tfail"] = time.time()
                hist.clear()
                c = dict(case, _flavour=flavour)
                if st["best"] is None or len(canon(c)) <= len(canon(st["best"][0])):
                    st["best"] = (c, str(e)[:2500])
                raise
            st["n"] += 1
            for l in labels:
                st["labels"][l] = st["labels"].get(l, 0) + 1
            if mod.nontrivial(case, labels):
                h = hashlib.sha1(canon(case).encode()).digest()[:12]
                if h not in st["hashes"]:
                    st["hashes"].add(h)
                    if len(st["samples"]) < 2:
                        st["samples"].append(dict(case, _flavour=flavour, _labels=sorted(labels)))
        for c in corners:
            try:
                one(c)
            except (Violation, Stop):
                break
        if n > 0 and st["best"] is None:
            test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                            report_multiple_bugs=False, print_blob=False,
                            suppress_health_check=list(HealthCheck),
                            phases=[Phase.generate, Phase.shrink])(
                hseed(int.from_bytes(hashlib.sha256(("%d/%d/%s" % (seed, wid, mod_name)).encode()).digest()[:6], "big"))(
                    given(mod.strategy(tier))(one)))
            try:
                test()
            except Violation:
                pass
            except BaseException as e:      # flaky reports etc. once a failure is on record
                if st["best"] is None:
                    raise
        ctx.close()
        q.put((wid, "ok", st))
    except BaseException:
        q.put((wid, "error", traceback.format_exc()))


def replay_case(mod, case, bins, scratch, seed=1, tier="quick"):
    """Returns None if the case passes, the message if it violates, or raises Inconclusive."""
    case = dict(case)
    fl = case.pop("_flavour", "opt")
    case.pop("_labels", None)
    ctx = Ctx(bins, fl, tempfile.mkdtemp(prefix="rp", dir=scratch), seed, tier)
    try:
        execute(mod, case, ctx)
        return None
    except Violation as e:
        return str(e)[:2500]
    finally:
        ctx.close()


def load_known(pid):
    """known_findings.json-lines: {"kind":"known","property":..,"case":{...},"what":..} / {"kind":"fixed",...}"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                path, what = rest.split(" ", 1)
                out.append((path, what))
    return out


def main(pid, replay=None):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod_name = "prop_" + pid
    mod = importlib.import_module(mod_name)
    scratch = tempfile.mkdtemp(prefix="vk_%s_" % pid)
    try:
        return _main(pid, mod, mod_name, tier, seed, scratch, t0, replay)
    finally:
        if scratch.startswith(tempfile.gettempdir() + "/vk_"):
            shutil.rmtree(scratch, ignore_errors=True)


def _say_violation(pid, path, msg):
    print(msg)
    print("VIOLATION property=%s replay=%s" % (pid, path))
    sys.stdout.flush()


def _main(pid, mod, mod_name, tier, seed, scratch, t0, replay):
    flavours = getattr(mod, "FLAVOURS", ["opt"] * 5 + ["san"] * 3)
    targets = list(getattr(mod, "TARGETS", [(v, f) for v in VARIANTS for f in ("opt", "san")]))
    bins = B.ensure(targets)
    if hasattr(mod, "more_bins"):
        bins.update(mod.more_bins(scratch))
        flavours = getattr(mod, "FLAVOURS", flavours)
    tbuild = time.time() - t0
    if hasattr(mod, "prepare"):
        mod.prepare(bins, scratch)

    if replay:
        case = json.load(open(replay))
        case = case.get("case", case)
        msg = replay_case(mod, case, bins, scratch, seed, tier)
        if msg is None:
            print("replay passes: %s" % replay)
            return 0
        _say_violation(pid, replay, msg)
        return 1

    # 1. saved failing inputs
    viol = None
    nreg = 0
    known = load_known(pid)
    kpaths = {os.path.join(VERIF, k) for k, _ in known}
    rdir = os.path.join(VERIF, "regress", pid)
    for path in sorted(os.listdir(rdir)) if os.path.isdir(rdir) else []:
        full = os.path.join(rdir, path)
        case = json.load(open(full))
        nreg += 1
        try:
            msg = replay_case(mod, case.get("case", case), bins, scratch, seed, tier)
        except Inconclusive:
            continue
        if full in kpaths:
            what = [w for k, w in known if os.path.join(VERIF, k) == full][0]
            if msg is not None:
                print("KNOWN-FINDING: property=%s %s" % (pid, what))
            continue
        if msg is not None:
            viol = (case.get("case", case), msg)
            break

    # 2. generated cases
    stats = []
    cor = []
    if viol is None:
        count = mod.COUNT[tier]
        cap = getattr(mod, "CAP", {"quick": 300, "thorough": 780})[tier]
        cor = list(mod.corners(tier)) if hasattr(mod, "corners") else []
        mpc = mp.get_context("fork")
        found, q = mpc.Event(), mpc.Queue()
        nw = getattr(mod, "NWORK", NWORK)
        per = -(-count // nw)
        procs = []
        frac = getattr(mod, "SAN_FRACTION", 0.4)
        fast = [w for w in range(nw) if flavours[w % len(flavours)] != "vg"]
        for w in range(nw):
            fl = flavours[w % len(flavours)]
            n = per if fl == "opt" else max(1, int(per * (frac if fl != "vg" else getattr(mod, "VG_FRACTION", 0.05))))
            mine = cor[fast.index(w)::len(fast)] if w in fast else []
            p = mpc.Process(target=_worker, args=(w, mod_name, tier, seed, bins, fl, n, mine, found, q,
                                                  t0 + cap, scratch))
            p.start()
            procs.append(p)
        left = set(range(nw))
        errors = []
        while left:
            try:
                wid, kind, st = q.get(timeout=5)
            except Exception:
                dead = [w for w in left if not procs[w].is_alive()]
                if dead:
                    try:
                        wid, kind, st = q.get(timeout=2)
                    except Exception:
                        for w in dead:
                            left.discard(w)
                            errors.append("worker %d ended without a report (status %s)" % (w, procs[w].exitcode))
                        continue
                else:
                    continue
            left.discard(wid)
            if kind == "ok":
                stats.append(st)
            else:
                errors.append(st)
        for p in procs:
            p.join()
        best = None
        for st in stats:
            if st["best"] and (best is None or len(canon(st["best"][0])) < len(canon(best[0]))):
                best = st["best"]
        if best is None and errors:
            sys.stderr.write("\n".join(errors) + "\n")
            if not stats:
                return 2
            real = [e for e in errors if "ended without a report" not in e]
            if real:
                return 2
        cands = [best] if best is not None else []
        cands += [st["first"] for st in stats if st["first"] and (best is None or st["first"][0] != best[0])]
        for cand in cands[:4]:
            hits, tries, last = 0, 0, None
            t = time.time()
            while (tries < 3 or (hits == 0 and tries < 13)) and time.time() < t + 60:
                tries += 1
                try:
                    m = replay_case(mod, cand[0], bins, scratch, seed, tier)
                except Inconclusive:
                    m = None
                if m is not None:
                    hits += 1
                    last = m
            if hits:
                viol = (cand[0], last)
                break
            print("inconclusive: a case failed once and did not fail again in %d replays: %s\n%s"
                  % (tries, canon(cand[0])[:3000], cand[1]))

    # 3. evidence
    hashes, labels, samples = set(), {}, []
    for st in stats:
        hashes |= st["hashes"]
        for k, v in st["labels"].items():
            labels[k] = labels.get(k, 0) + v
        samples += st["samples"][:1]
    ev = sum(st["n"] for st in stats)
    if not samples:
        samples = [viol[0]] if viol else [{"note": "no non-trivial case finished"}]
    cov = {
        "evaluations": ev,
        "distinct_nontrivial": len(hashes),
        "rule": mod.RULE,
        "samples": samples[:6],
        "corner_cases": len(cor),
        "saved_failing_inputs_replayed": nreg,
        "inconclusive": sum(st["inc"] for st in stats),
        "skipped_after_failure_or_cap": sum(st["skipped"] for st in stats),
        "labels": dict(sorted(labels.items())),
        "build_s": round(tbuild, 2),
    }
    inc = [st["incmsg"] for st in stats if st["incmsg"]]
    if inc:
        cov["inconclusive_example"] = inc[0][:300]
    evid = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
            "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2),
            "violations": 1 if viol else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evid, f, indent=1)
        f.write("\n")
    if viol:
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (pid, hashlib.sha1(canon(viol[0]).encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            json.dump({"property": pid, "case": viol[0], "message": viol[1]}, f, indent=1)
            f.write("\n")
        _say_violation(pid, path, viol[1])
        return 1
    print("%s %s seed=%d: held on %d cases (%d distinct non-trivial), %d corner, %d saved, %.1fs"
          % (pid, tier, seed, ev, len(hashes), len(cor), nreg, time.time() - t0))
    return 0

from hypothesis import strategies as st
import json, os, shlex, subprocess
import numpy as np
import fw, gen, ref
from fw import check
from launchbase import *
from prop_L01 import BASE
from prop_P01 import INTS, DBL, STR, info

RULE = ("histories of 1-3 launches in a scratch checkout with recording stand-ins for the executables, sbatch and time: local or cluster, named or default run "
        "directories (fresh, already existing with content, repeated), timing on/off, 1..64 threads, up to 3 levels, arbitrary setting values incl. lists and a "
        "path with a space, the same launch object reused, and the template script itself; cluster job scripts are executed too. The file tree before and after, "
        "the started command, its environment and output, and the parameters the simulator reads back are compared with the configuration. Non-trivial: a run "
        "was started and either two launches, a cluster job or an existing directory.")
COUNT = {"quick": 1440, "thorough": 18000}
SAN_FRACTION = 0.6
TARGETS = [("fd_lon", "opt"), ("fd_lon", "san")]
FLAVOURS = ["opt"] * 7 + ["san"]


@st.composite
def launch(draw, i):
    s = draw(settings())
    n = max(s["nx"], s["nlat"], s["nphi"], 2)
    rad = min(6.0 / n ** 2, s.get("cfl", 1.0) / n)
    s["evolve_time"] = min(s["evolve_time"], 1e9 * rad / s["black_hole_mass"])     # step counts a 32-bit integer can hold
    L = {"set": s, "computer": draw(st.sampled_from(["home", "home", "della", "cluster"])),
         "dir": draw(st.sampled_from([None, "/run_a", "/run_a", "/b/c", "/earlier", "/r.%d" % i])),
         "time_it": draw(st.booleans()), "threads": draw(st.integers(1, 64)), "levels": draw(st.integers(1, 3)),
         "bin": draw(st.sampled_from([None, None, None, BINS[2]])), "wall": draw(st.sampled_from(["24:00:00", "1:30:00", "7-00:00:00"])),
         "mem": draw(st.sampled_from(["8192", "1", "64000"])), "email": draw(st.sampled_from(["a@b.org", "x.y-z@uni.edu"])),
         "extra": draw(st.sampled_from([None, [1, 2.5, 3], [7], [1, 2.5, 4], [0.5, -1]]))}
    L["reuse"] = draw(st.integers(0, i - 1)) if i and draw(st.integers(0, 2)) == 0 else None
    L["order"] = draw(st.one_of(st.none(), st.integers(0, 10 ** 6)))
    return L


@st.composite
def strat(draw, tier):
    n = draw(st.sampled_from([1, 1, 2, 2, 3]))
    ls = [draw(launch(i)) for i in range(n)]
    for i, L in enumerate(ls):
        if L["reuse"] is not None and draw(st.booleans()):      # a few settings change, the others stay
            b = ls[L["reuse"]]
            k = draw(st.lists(st.sampled_from(["amp", "k1", "V2", "num_saved_times", "evolve_time", "black_hole_spin"]), max_size=2))
            n = {x: L["set"][x] for x in k}
            M = b["set"]["black_hole_mass"]
            if "black_hole_spin" in n:
                n["black_hole_spin"] = max(-M, min(M, n["black_hole_spin"]))
            if "evolve_time" in n:
                n["evolve_time"] = min(n["evolve_time"], b["set"]["evolve_time"])
            L["set"] = dict(b["set"], **n)
            L["computer"] = b["computer"]
    return {"space": draw(st.integers(0, 4)) == 0, "launches": ls}


def strategy(tier):
    return strat(tier)


def corners(tier):
    out = []
    L = {"set": BASE, "computer": "home", "dir": "/x", "time_it": False, "threads": 4, "levels": 1, "bin": None, "wall": "24:00:00", "mem": "8192",
         "email": "a@b.c", "extra": None, "reuse": None, "order": None}
    for comp in ("home", "della"):
        for dr in (None, "/x", "/earlier"):
            for t in (False, True):
                out.append({"space": False, "launches": [dict(L, computer=comp, dir=dr, time_it=t, threads=3, levels=2)]})
        out.append({"space": False, "launches": [dict(L, computer=comp), dict(L, computer=comp, set=dict(BASE, nx=99))]})
        out.append({"space": False, "launches": [dict(L, computer=comp), dict(L, computer=comp, reuse=0, set=dict(BASE, nx=98))]})
        out.append({"space": False, "launches": [dict(L, computer=comp, dir="/p", extra=[1, 2, 3]), dict(L, computer=comp, dir="/q", reuse=0, extra=[1, 5, 3]),
                                                 dict(L, computer=comp, dir="/s", reuse=0, extra=[4], threads=5, set=dict(BASE, amp=0.5))]})
        out.append({"space": False, "launches": [dict(L, template=True, computer=comp, dir="/t")]})
        out.append({"space": False, "launches": [dict(L, template=True, computer=comp, dir=None)]})
    out.append({"space": True, "launches": [dict(L, dir=None, set=dict(BASE, use_cheb=True, bin_name=BINS[1], nx=33))]})
    return out


def records(log):
    out, cur = [], None
    for l in log.split("\n"):
        if l in ("RUN", "SBATCH"):
            cur = {"kind": l, "args": []}
        elif l == "END":
            out.append(cur)
            cur = None
        elif cur is not None and "=" in l:
            k, v = l.split("=", 1)
            if k == "arg":
                cur["args"].append(v)
            else:
                cur[k] = v
    return out


def directives(text):
    out = {}
    for l in text.split("\n"):
        if l.startswith("#SBATCH"):
            tk = shlex.split(l[7:], comments=True)
            i = 0
            while i < len(tk):
                if tk[i].startswith("--"):
                    k, _, v = tk[i].partition("=")
                    if not _ and i + 1 < len(tk):
                        v = tk[i + 1]
                        i += 1
                else:
                    k = tk[i]
                    v = tk[i + 1] if i + 1 < len(tk) else ""
                    i += 1
                out[k] = v
                i += 1
    return out


ALIAS = {"-t": "--time", "-c": "--cpus-per-task", "-o": "--output", "-N": "--nodes", "-n": "--ntasks"}


def run_record(r, rundir, binname, L, pfile, threads, what):
    check(r["kind"] == "RUN" and os.path.realpath(r["cwd"]) == os.path.realpath(rundir), lambda: "%s: started in %s, run directory is %s" % (what, r.get("cwd"), rundir))
    check(r["tag"] == binname and os.path.basename(r["self"]) == binname, lambda: "%s: started %s, selected executable is %s" % (what, r["self"], binname))
    check(len(r["args"]) == 2 and os.path.isfile(os.path.join(rundir, r["args"][0])) and os.path.realpath(os.path.join(rundir, r["args"][1])) == os.path.realpath(rundir),
          lambda: "%s: arguments %s" % (what, r["args"]))
    check(r["threads"] == str(threads) and r["levels"] == str(L["levels"]),
          lambda: "%s: OMP_NUM_THREADS=%s OMP_MAX_ACTIVE_LEVELS=%s, configured %s and %s" % (what, r["threads"], r["levels"], threads, L["levels"]))


def run(case, ctx):
    lab = Lab(ctx, case["space"] and all(L["computer"] == "home" for L in case["launches"]))
    s = ctx.server("fd_lon")
    todo = []
    for L in case["launches"]:
        d = {}
        if not L.get("template"):
            d.update({k: enc(v) for k, v in L["set"].items()})
            if L["order"] is not None:
                ks = list(d)
                np.random.default_rng(L["order"]).shuffle(ks)
                d = {k: d[k] for k in ks}
            d["run_type"] = "basic_run"
            if L["bin"]:
                d["bin_name"] = L["bin"]
            if L["extra"] is not None:
                d["extra_list"] = enc(L["extra"])
        d.update(output_dir=L["dir"], computer=L["computer"], out_stem=lab.stem, recompile=False, time_it=L["time_it"],
                 num_threads=L["threads"], num_omp_levels=L["levels"], walltime=L["wall"], memory=L["mem"], email=L["email"])
        todo.append({"settings": d, "template": bool(L.get("template")), "reuse": L["reuse"]})
    rep = lab.run(todo)
    labels = set()
    prev_none = set()
    for i, (L, T, r) in enumerate(zip(case["launches"], todo, rep)):
        what = "launch %d (%s, %s)" % (i, L["computer"], L["dir"])
        local = L["computer"] == "home"
        check(os.path.realpath(r["cwd"]) == os.path.realpath(lab.home), lambda: "%s leaves the working directory at %s" % (what, r["cwd"]))
        changed = [k for k, v in r["before"].items() if r["after"].get(k) != v]
        check(not changed, lambda: "%s altered existing files: %s" % (what, changed[:4]))
        new = set(r["after"]) - set(r["before"])
        recs = records(r["log"])
        base = lab.home + "/Output" if local else lab.stem
        if L["dir"] is not None:
            exists = base + L["dir"] + "/" in r["before"]
        else:
            key = (local,) + tuple(r["vars"].get(k) if not isinstance(r["vars"].get(k), dict) else r["vars"][k]["f"] for k in ("black_hole_mass", "black_hole_spin", "nx", "nl", "nm"))
            exists = key in prev_none
            prev_none.add(key)
        if r["error"]:
            check(exists, lambda: "%s failed: %s" % (what, r["error"]))
            check(not recs and not [x for x in new if not x.endswith("/")], lambda: "%s failed but left %s" % (what, sorted(new)[:4]))
            labels.add("refused")
            continue
        cfg = {k: dec(v) for k, v in T["settings"].items()}
        var = {k: dec(v) for k, v in r["vars"].items()}
        if T["template"]:
            cfg = {k: v for k, v in var.items() if k in INTS + DBL + STR + ["bin_name"]}
            check(var.get("bin_name") == (BINS[1] if var.get("use_cheb") else BINS[0]), lambda: "template selects %s with use_cheb=%s" % (var.get("bin_name"), var.get("use_cheb")))
            labels.add("template")
        binname = cfg["bin_name"]
        check(len(recs) == 1, lambda: "%s: %d processes started (log %r)" % (what, len(recs), r["log"][:400]))
        rc = recs[0]
        rundir = rc["cwd"]
        if rc["kind"] == "SBATCH":
            check(not local, what + ": a local run was submitted as a job")
            check(len(rc["args"]) >= 1, what + ": sbatch without a script")
            script = os.path.join(rc["cwd"], rc["args"][-1])
            check(os.path.isfile(script), lambda: "%s: submitted script %s does not exist" % (what, script))
            rundir = os.path.dirname(os.path.realpath(script))
        check(rundir + "/" not in r["before"] and rundir + "/" in r["after"], lambda: "%s: run directory %s is not new" % (what, rundir))
        check(all(x == rundir + "/" or x.startswith(rundir + "/") or rundir.startswith(x) for x in new), lambda: "%s wrote outside its directory: %s" % (what, sorted(new)[:6]))
        check(os.path.realpath(rundir).startswith(os.path.realpath(base) + "/"), lambda: "%s: run directory %s is not below %s" % (what, rundir, base))
        if L["dir"] is not None and L["reuse"] is None:
            check(os.path.realpath(rundir) == os.path.realpath(base + L["dir"]), lambda: "%s: run directory is %s" % (what, rundir))
        bp = os.path.join(rundir, binname)
        check(os.path.isfile(bp), lambda: "%s: executable was not copied" % what)
        with open(bp) as f, open(lab.home + "/Bin/" + binname) as g:
            check(f.read() == g.read(), what + ": copied executable differs")
        check(not os.path.islink(bp) and os.stat(bp).st_ino != os.stat(lab.home + "/Bin/" + binname).st_ino,
              what + ": the run directory holds a link to the executable in Bin, not a copy")
        if rc["kind"] == "RUN":
            check(local, what + ": a cluster run was started locally")
            run_record(rc, rundir, binname, L, None, L["threads"], what)
            args = rc["args"]
            txts = [open(os.path.join(rundir, x), errors="replace").read() for x in os.listdir(rundir) if x != binname and os.path.isfile(os.path.join(rundir, x))]
            check(any("line on stdout " + binname in t and "line on stderr " + binname in t for t in txts), what + ": output is not captured in the run directory")
            labels.add("local")
        else:
            with open(script) as f:
                text = f.read()
            dv = {ALIAS.get(k, k): v for k, v in directives(text).items()}
            check(dv.get("--time") == L["wall"], lambda: "%s: walltime %r, configured %r" % (what, dv.get("--time"), L["wall"]))
            check(dv.get("--mem") in (L["mem"] + "MB", L["mem"] + "M", L["mem"]), lambda: "%s: memory %r, configured %s MB" % (what, dv.get("--mem"), L["mem"]))
            check(dv.get("--mail-user") == L["email"], lambda: "%s: mail %r" % (what, dv.get("--mail-user")))
            check(dv.get("--cpus-per-task") == str(L["threads"]), lambda: "%s: cpus %r, configured %d" % (what, dv.get("--cpus-per-task"), L["threads"]))
            check(text.startswith("#!"), what + ": job script has no interpreter line")
            # what the job does when it runs
            open(lab.log, "w").close()
            env = dict(lab.env, SLURM_CPUS_PER_TASK=dv["--cpus-per-task"])
            try:
                subprocess.run(["/bin/sh", script], cwd=rundir, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                               timeout=60, **demote())
            except subprocess.TimeoutExpired:
                raise fw.Inconclusive("job script did not finish")
            jr = records(open(lab.log).read())
            check(len(jr) == 1, lambda: "%s: job script starts %d programs" % (what, len(jr)))
            run_record(jr[0], rundir, binname, L, None, L["threads"], what + " job")
            args = jr[0]["args"]
            labels.add("cluster")
        # parameters
        path = os.path.join(rundir, args[0])
        os.chmod(path, 0o644)
        with open(path) as f:
            lines = [l.rstrip("\n").split(" ") for l in f]
        h = s.call("params_new", S=[path])
        check(len(h.I) == 1, what + ": the simulator rejects the parameter file")
        got = info(s, h.I[0])
        for k in INTS + DBL + STR:
            w = var.get(k) if k not in cfg else cfg[k]
            check(w is not None and (got[k] == w), lambda: "%s: %s configured as %r, simulator reads %r" % (what, k, w, got[k]))
        names = [l[0] for l in lines]
        for k, w in cfg.items():
            if k in ("output_dir",):
                continue
            rows = [l[1:] for l in lines if l[0] == k]
            want = [str(x) for x in w] if isinstance(w, list) else None
            check(len(rows) == 1 and ([x for x in rows[0] if x] == want if want else " ".join(rows[0]) == str(w)),
                  lambda: "%s: setting %s=%r appears as %s in the parameter file" % (what, k, w, rows))
        labels.add("started")
        if L["reuse"] is not None:
            labels.add("reused")
    return sorted(labels)


def nontrivial(case, labels):
    return "started" in labels and (len(case["launches"]) > 1 or "cluster" in labels or "refused" in labels)

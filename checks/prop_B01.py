from hypothesis import strategies as st
import json, os, shutil, subprocess
import numpy as np
import fw, gen, ref
import build as B
from fw import check, close
from launchbase import demote, open_up, NOBODY, SBATCH, enc
from kerrbase import params_text, DEFAULTS

RULE = ("histories of 1-5 operations in a scratch checkout with its own HOME (stand-in SHTns installed where the makefile expects it): compile script with or "
        "without options, make with any of the scheme and layout options, make of a named executable or of the objects alone, source/header edits (some with old time stamps) that add a visible start-up "
        "tag, cleans, launches with recompile for either executable, one by one or several in one Python process with builds in between; after every compile script or recompiling launch the executables are run and their "
        "radial positions, spectrum and tags are examined. Non-trivial: something was built or edited before the judged operation.")
COUNT = {"quick": 64, "thorough": 700}
CAP = {"quick": 420, "thorough": 800}
TARGETS = []
FLAVOURS = ["opt"]
ASSUMPTIONS = ["g++ is replaced by a wrapper that compiles unoptimised and reuses objects of identical content and options"]
EDITS = ["grid.cpp", "main.cpp", "cheb.cpp", "grid.hpp"]
FILES = ["Source", "Bin", "Output", "Makefile", "config.py", "sim_class.py", "runscript_template.py"]

_env = {}

op = st.one_of(
    st.tuples(st.just("config"), st.sampled_from(["", "", "", "-d true", "-p true"])).map(list),
    st.tuples(st.just("config"), st.just("")).map(list),
    st.tuples(st.just("make"), st.booleans(), st.booleans()).map(list),
    st.tuples(st.just("named"), st.booleans(), st.booleans(), st.booleans()).map(list),
    st.tuples(st.just("objs"), st.booleans(), st.booleans()).map(list),
    st.tuples(st.just("edit"), st.sampled_from(EDITS), st.integers(0, 2), st.booleans()).map(list),
    st.tuples(st.just("clean"), st.sampled_from(["clean_Source", "clean_Bin", "clean"])).map(list),
    st.tuples(st.just("launch"), st.booleans(), st.sampled_from(["home", "home", "della"])).map(list))


GOALS = ["config", "cheb", "fd", "objs", "clean", "", ""]
session = st.tuples(st.just("session"), st.lists(st.tuples(st.booleans(), st.sampled_from(["home", "home", "della"]), st.sampled_from(GOALS)).map(list), min_size=2, max_size=3)).map(list)


def strategy(tier):
    last = st.one_of(session, st.tuples(st.just("config"), st.sampled_from(["", "", "-d true", "-p true"])).map(list), st.tuples(st.just("launch"), st.booleans(), st.just("home")).map(list))
    return st.tuples(st.lists(op, min_size=0, max_size=4 if tier == "quick" else 7), last).map(lambda t: {"ops": t[0] + [t[1]]})


def corners(tier):
    return [{"ops": o} for o in (
        [["config", ""]], [["objs", True, True], ["config", ""]], [["objs", False, False], ["launch", True, "home"]], [["config", ""], ["edit", "grid.hpp", 1], ["config", ""]],
        [["make", True, True], ["launch", False, "home"], ["launch", True, "home"]],
        [["session", [[False, "home", ""], [False, "home", "cheb"], [True, "home", "clean"]]]],
        [["session", [[True, "della", ""], [True, "home", "config"], [True, "della", "fd"]]]],
        [["config", ""], ["launch", False, "della"], ["launch", True, "della"]],
        [["objs", False, True], ["config", "-d true"]], [["objs", True, False], ["config", "-p true"]], [["objs", False, False], ["config", ""]], [["make", True, False], ["config", ""]], [["make", False, False], ["config", ""]],
        [["config", ""], ["edit", "grid.cpp", 1], ["launch", True, "home"], ["config", ""]],
        [["config", ""], ["edit", "cheb.cpp", 1, True], ["edit", "main.cpp", 2, True], ["launch", True, "home"], ["edit", "main.cpp", 0, True], ["config", ""]],
        [["config", ""], ["clean", "clean_Source"], ["edit", "main.cpp", 2], ["config", ""]])]


def prepare(bins, scratch):
    cc = os.path.join(scratch, "cc")
    os.mkdir(cc)
    lib = os.path.join(scratch, "shtns")
    os.makedirs(lib + "/include")
    os.makedirs(lib + "/lib")
    shutil.copy(os.path.join(B.SHT, "shtns.h"), lib + "/include")
    subprocess.check_call(["g++", "-std=c++17", "-O2", "-I" + B.SHT, "-c", "-o", lib + "/lib/s.o", os.path.join(B.SHT, "shtns.cpp")])
    subprocess.check_call(["ar", "rcs", lib + "/lib/libshtns.a", lib + "/lib/s.o"])
    subprocess.check_call(["g++", "-std=c++17", "-O2", "-static", "-o", scratch + "/cxx_cache", os.path.join(B.HARN, "cxx_cache.cpp")])
    shutil.copy(os.path.join(B.HARN, "launch_driver.py"), scratch)
    os.chmod(scratch, 0o711)
    os.chmod(cc, 0o1777)
    for b, ds, fs in os.walk(lib):
        os.chmod(b, 0o755)
        for f in fs:
            os.chmod(os.path.join(b, f), 0o644)
    os.chmod(scratch + "/cxx_cache", 0o755)
    os.chmod(scratch + "/launch_driver.py", 0o644)
    _env.update(cc=cc, lib=lib, scratch=scratch)
    # fill the object cache in parallel; the outcome of these builds is not judged
    ctx = fw.Ctx({}, "opt", scratch)
    ps = []
    for fl in (["use_cheb=true", "use_contiguous_longitudes=true"], ["use_contiguous_longitudes=true"]):
        c = Checkout(ctx)
        ps.append(subprocess.Popen(["make", "-j4", "-C", "Source"] + fl, cwd=c.repo, env=c.env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                   stderr=subprocess.DEVNULL, **demote()))
    for p in ps:
        try:
            p.wait(200)
        except subprocess.TimeoutExpired:
            p.kill()
    ctx.drop_tmps()


class Checkout:
    def __init__(self, ctx):
        self.d = ctx.tmp("b")
        open_up(self.d)
        self.repo = self.d + "/checkout"
        os.mkdir(self.repo)
        for f in FILES:
            p = os.path.join(B.REPO, f)
            if os.path.isdir(p):
                shutil.copytree(p, os.path.join(self.repo, f), ignore=shutil.ignore_patterns("*.o", "*.run", ".*.swp"))
            elif os.path.exists(p):
                shutil.copy(p, self.repo)
        os.makedirs(self.d + "/home/shtns")
        os.symlink(_env["lib"], self.d + "/home/shtns/Library")
        os.mkdir(self.d + "/tools")
        for n in ("g++", "c++"):
            shutil.copy(_env["scratch"] + "/cxx_cache", self.d + "/tools/" + n)
        for n, t in (("sbatch", SBATCH), ("time", '#!/bin/sh\nexec "$@"\n')):
            with open(self.d + "/tools/" + n, "w") as f:
                f.write(t)
            os.chmod(self.d + "/tools/" + n, 0o755)
        os.mkdir(self.d + "/stem")
        os.mkdir(self.d + "/probe")
        if demote():
            for b, ds, fs in os.walk(self.d):
                os.chown(b, NOBODY, NOBODY)
                for f in fs:
                    os.chown(os.path.join(b, f), NOBODY, NOBODY)
        self.env = {"PATH": self.d + "/tools:/usr/local/bin:/usr/bin:/bin", "HOME": self.d + "/home", "CXX_CACHE": _env["cc"], "LC_ALL": "C.UTF-8",
                    "OMP_NUM_THREADS": "1", "REC_LOG": self.d + "/log", "PYTHONDONTWRITEBYTECODE": "1"}
        self.orig = {f: open(self.repo + "/Source/" + f).read() for f in EDITS if os.path.exists(self.repo + "/Source/" + f)}
        self.cur = {f: 0 for f in self.orig}
        self.n = 0

    def sh(self, cmd, cwd=None, env=None, timeout=400):
        try:
            p = subprocess.run(cmd, cwd=cwd or self.repo, env=dict(self.env, **(env or {})), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=timeout, **demote())
        except subprocess.TimeoutExpired:
            raise fw.Inconclusive("%s took longer than %d s" % (cmd, timeout))
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")

    def edit(self, f, n, old=False):
        """old: the new version carries an old time stamp, as when restored from an archive."""
        if f not in self.orig:
            return
        g = "VERIF_EDIT_" + f.replace(".", "_").upper()
        t = self.orig[f]
        if n:
            t += ('\n#ifndef %s\n#define %s\n#include <cstdio>\n#include <cstdlib>\nnamespace { struct %s_t { %s_t() { if (std::getenv("VERIF_PROBE")) '
                  'std::fprintf(stderr,"EDIT %s %d\\n"); } } %s_v; }\n#endif\n') % (g, g, g, g, f, n, g)
        p = self.repo + "/Source/" + f
        os.chmod(p, 0o644)
        with open(p, "w") as h:
            h.write(t)
        if old:
            os.utime(p, (1e9, 1e9))
        self.cur[f] = n

    def probe(self, path, cheb, what):
        check(os.path.isfile(path), lambda: "%s: %s does not exist" % (what, path))
        d = self.d + "/probe/%d" % self.n
        self.n += 1
        os.mkdir(d)
        if demote():
            os.chown(d, NOBODY, NOBODY)
        nx = 17
        with open(d + "/params.txt", "w") as f:
            f.write(params_text(dict(DEFAULTS, nt=3, nx=nx, nl=3, nm=2, nlat=6, nphi=8, l_ang=2, m_ang=1, dt=1e-3)))
        rc, out, err = self.sh([path, "params.txt", "."], cwd=d, env={"VERIF_PROBE": "1"}, timeout=120)
        check(rc == 0, lambda: "%s: %s ends with status %d: %s" % (what, os.path.basename(path), rc, (out + err)[-300:]))
        g = ref.G3("cheb_phi" if cheb else "fd_phi", 20.0, 1.5, 20.0, nx, 3, 2, 6, 8)
        rows = np.genfromtxt(d + "/f_RPsl_0.csv", delimiter=",", skip_header=1)
        check(rows.shape == (nx * 3, 3), lambda: "%s: snapshot has shape %s" % (what, rows.shape))
        R = np.sort(np.unique(np.round(rows[:, 0], 9)))
        want = np.sort(g.R)
        check(len(R) == nx and np.max(np.abs(R - want)) < 1e-7,
              lambda: "%s: %s has radial positions %s..., the %s grid has %s..." % (what, os.path.basename(path), R[:3], "Chebyshev" if cheb else "uniform", want[:3]))
        l2 = rows[rows[:, 1] == 2, 2].max()
        l01 = rows[rows[:, 1] < 2, 2].max()
        check(l2 > -6 and l01 < -20 + 10, lambda: "%s: l=2 pulse has power 10^%g in l=2 and 10^%g in l<2" % (what, l2, l01))
        seen = {}
        for l in err.split("\n"):
            if l.startswith("EDIT "):
                _, f, n = l.split()
                seen.setdefault(f, set()).add(int(n))
        for f, n in self.cur.items():
            if f == "cheb.cpp" and not cheb and f not in seen:
                continue        # a finite-difference program need not contain it
            check(seen.get(f, set()) == ({n} if n else set()), lambda: "%s: %s is version %d, %s was built from %s" % (what, f, n, os.path.basename(path), sorted(seen.get(f, []))))


LAUNCH = {"black_hole_mass": 1.0, "black_hole_spin": 0.5, "compactification_length": 20.0, "evolve_time": 0.4, "num_saved_times": 2, "nx": 17, "nl": 3, "nm": 2,
          "nlat": 6, "nphi": 8, "km1": 0.0, "k0": 1.0, "k1": 0.0, "k2": 0.0, "V2": 0.0, "V3": 0.0, "V4": 0.0, "l_ang": 2, "m_ang": 1, "amp": 0.1, "rl_0": 1.5,
          "ru_0": 4.0, "initial_data_type": "compact_pulse", "initial_data_direction": "ingoing", "time_it": False, "num_omp_levels": 1, "num_threads": 1,
          "walltime": "1:00:00", "memory": "100", "email": "a@b.c", "recompile": True, "cfl": 0.5}


def run(case, ctx):
    c = Checkout(ctx)
    lab = set()
    dirty = False
    k = 0
    for o in case["ops"]:
        what = "after %s" % o
        if o[0] == "config":
            rc, out, err = c.sh(["/usr/bin/python3", "config.py"] + o[1].split())
            check(rc == 0, lambda: "compile script ends with status %d: %s" % (rc, err[-400:]))
            c.probe(c.repo + "/Bin/default_fd.run", False, what)
            c.probe(c.repo + "/Bin/default_cheb.run", True, what)
            lab.add("config" + (" after history" if dirty else ""))
            dirty = True
        elif o[0] == "make":
            c.sh(["make"] + (["use_cheb=true"] if o[1] else []) + (["use_contiguous_longitudes=true"] if o[2] else []))
            dirty = True
        elif o[0] == "named":
            c.sh(["make", "default_cheb.run" if o[1] else "default_fd.run"] + (["use_cheb=true"] if o[2] else []) + (["use_contiguous_longitudes=true"] if o[3] else []))
            dirty = True
        elif o[0] == "objs":        # objects made on their own stay around
            c.sh(["make", "-C", "Source"] + sorted(f[:-4] + ".o" for f in os.listdir(c.repo + "/Source") if f.endswith(".cpp") and f not in B.NOT_LINKED)
                 + (["use_cheb=true"] if o[1] else []) + (["use_contiguous_longitudes=true"] if o[2] else []))
            dirty = True
        elif o[0] == "edit":
            c.edit(o[1], o[2], len(o) > 3 and o[3])
            dirty = True
        elif o[0] == "clean":
            c.sh(["make", o[1]])
        else:
            steps = o[1] if o[0] == "session" else [[o[1], o[2], ""]]
            Ls, want = [], []
            for cheb, comp, goal in steps:      # launches of one Python process, and what is built between them
                k += 1
                t = dict(LAUNCH, use_cheb=cheb, bin_name="default_cheb.run" if cheb else "default_fd.run", computer=comp, out_stem=c.d + "/stem",
                         output_dir="/launch%d" % k)
                L = {"settings": {a: enc(b) for a, b in t.items()}}
                if goal:
                    lon = "use_contiguous_longitudes=true"
                    L["sh"] = {"config": ["/usr/bin/python3", "config.py"], "cheb": ["make", "default_cheb.run", "use_cheb=true", lon],
                               "fd": ["make", "default_fd.run", lon], "clean": ["make", "clean_Bin"],
                               "objs": ["make", "-C", "Source", "grid.o", "cheb.o", "finite_diff.o"] + ["use_cheb=true"] * (not cheb)}[goal]
                    dirty = True
                Ls.append(L)
                want.append(((c.repo + "/Output" if comp == "home" else c.d + "/stem") + "/launch%d" % k, t["bin_name"], cheb, comp))
            with open(c.d + "/case.json", "w") as f:
                json.dump({"launches": Ls, "roots": []}, f)
            os.chmod(c.d + "/case.json", 0o644)
            if os.path.exists(c.d + "/report.json"):
                os.remove(c.d + "/report.json")
            rc, out, err = c.sh(["/usr/bin/python3", _env["scratch"] + "/launch_driver.py", c.d + "/case.json", c.d + "/report.json"])
            check(os.path.exists(c.d + "/report.json"), lambda: "launch: %s" % (out + err)[-500:])
            for j, r in enumerate(json.load(open(c.d + "/report.json"))):
                rd, name, cheb, comp = want[j]
                check(not r["error"], lambda: "%s: launch %d failed: %s %s" % (what, j, r["error"], err[-300:]))
                if os.path.isfile(rd + "/" + name):
                    os.chmod(rd + "/" + name, 0o755)     # a job does this itself when it starts
                c.probe(rd + "/" + name, cheb, "%s, launch %d" % (what, j))
                if comp == "home":
                    check(os.path.exists(rd + "/f_RPsl_0.csv"), lambda: "%s: the launched run wrote no snapshot" % what)
            if len(steps) > 1:
                lab.add("session after history")
            lab.add("launch" + (" after history" if dirty else ""))
            dirty = True
    return sorted(lab)


def nontrivial(case, labels):
    return any("after history" in l for l in labels)

"""Scratch checkout with recording stand-ins for the executables, sbatch and time."""
import json, os, shutil, subprocess, sys
import fw, gen
import build as B
from hypothesis import strategies as st

REC = r'''#!/bin/sh
# stand-in executable: records how it was started
{
echo "RUN"
echo "cwd=$(pwd -P)"
echo "self=$0"
echo "nargs=$#"
for a in "$@"; do echo "arg=$a"; done
echo "threads=$OMP_NUM_THREADS"
echo "levels=$OMP_MAX_ACTIVE_LEVELS"
echo "tag=@TAG@"
echo "END"
} >> "$REC_LOG"
echo "line on stdout @TAG@"
echo "line on stderr @TAG@" 1>&2
'''
SBATCH = r'''#!/bin/sh
{
echo "SBATCH"
echo "cwd=$(pwd -P)"
echo "nargs=$#"
for a in "$@"; do echo "arg=$a"; done
echo "END"
} >> "$REC_LOG"
'''
NOBODY = 65534
BINS = ["default_fd.run", "default_cheb.run", "my-exe.run"]


def demote():
    return {} if os.geteuid() != 0 else {"user": NOBODY, "group": NOBODY, "extra_groups": []}


def open_up(path):
    """Let the unprivileged user traverse to path."""
    p = path
    while p.startswith("/tmp/") and p != "/tmp":
        os.chmod(p, os.stat(p).st_mode | 0o011)
        p = os.path.dirname(p)


class Lab:
    def __init__(self, ctx, spaces=False):
        self.d = ctx.tmp("L")
        self.home = os.path.join(self.d, "a home" if spaces else "home")
        self.stem = os.path.join(self.d, "cluster")
        self.tools = os.path.join(self.d, "tools")
        self.log = os.path.join(self.d, "log")
        for x in (self.home, self.stem, self.tools, self.home + "/Bin", self.home + "/Output"):
            os.makedirs(x)
        for f in ("sim_class.py", "runscript_template.py"):
            shutil.copy(os.path.join(B.REPO, f), self.home)
        shutil.copy(os.path.join(B.HARN, "launch_driver.py"), self.d)
        for b in BINS:
            self.script(self.home + "/Bin/" + b, REC.replace("@TAG@", b), 0o755)
        self.script(self.tools + "/sbatch", SBATCH, 0o755)
        self.script(self.tools + "/time", '#!/bin/sh\nexec "$@"\n', 0o755)
        for x in ("Output/earlier", ):
            os.makedirs(os.path.join(self.home, x))
            with open(os.path.join(self.home, x, "params.txt"), "w") as f:
                f.write("nx 3\n")
        if demote():
            for b, ds, fs in os.walk(self.d):
                os.chown(b, NOBODY, NOBODY)
                for f in fs:
                    os.chown(os.path.join(b, f), NOBODY, NOBODY)
        open_up(self.d)
        self.env = {"PATH": self.tools + ":/usr/local/bin:/usr/bin:/bin", "HOME": self.home, "REC_LOG": self.log, "LC_ALL": "C.UTF-8",
                    "OMP_NUM_THREADS": "1"}

    def script(self, p, t, mode):
        with open(p, "w") as f:
            f.write(t)
        os.chmod(p, mode)

    def run(self, launches):
        with open(os.path.join(self.d, "case.json"), "w") as f:
            json.dump({"launches": launches, "roots": [self.home, self.stem]}, f)
        os.chmod(os.path.join(self.d, "case.json"), 0o644)
        rep = os.path.join(self.d, "report.json")
        try:
            p = subprocess.run(["/usr/bin/python3", self.d + "/launch_driver.py", self.d + "/case.json", rep], cwd=self.home, env=self.env,
                               stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, **demote())
        except subprocess.TimeoutExpired:
            raise fw.Inconclusive("launch driver did not finish within 120 s")
        if p.returncode or not os.path.exists(rep):
            t = p.stdout.decode(errors="replace")
            if "SyntaxError" in t or "ImportError" in t or "Error" in t:
                fw.fail("launch script cannot be used: " + t[-800:])
            raise fw.Inconclusive("launch driver: " + t[-500:])
        with open(rep) as f:
            return json.load(f)


def enc(v):
    if isinstance(v, float):
        return {"f": v.hex()}
    if isinstance(v, list):
        return [enc(x) for x in v]
    return v


def dec(v):
    if isinstance(v, dict):
        return float.fromhex(v["f"]) if "f" in v else v["r"]
    if isinstance(v, list):
        return [dec(x) for x in v]
    return v


@st.composite
def settings(draw):
    M = draw(st.one_of(st.just(1.0), gen.fl(1e-3, 50), gen.fl(0.5, 2)))
    sk = draw(st.sampled_from(["0", "1", "-1", "near", "any", "any", "any"]))
    a = {"0": 0.0, "1": M, "-1": -M, "near": round(0.9999 * M, 16)}.get(sk)
    if a is None:
        a = M * draw(gen.fl(-1, 1))
    if abs(a) > M:
        a = M
    if abs(a) < 1e-290:
        a = 0.0                 # std::stod rejects subnormal numbers
    s = {"black_hole_mass": M, "black_hole_spin": a, "compactification_length": draw(st.one_of(st.sampled_from([10.0, 20.0, 40.0]), gen.fl(0.1, 1000))),
         "evolve_time": draw(st.one_of(st.sampled_from([600.0, 10.0, 1.0]), gen.fl(0.01, 3000))), "num_saved_times": draw(st.one_of(st.integers(1, 20), st.integers(1, 10000))),
         "nx": draw(st.one_of(st.integers(9, 60), st.integers(9, 9000))), "nl": draw(st.integers(1, 40)), "nm": draw(st.integers(0, 40)),
         "nlat": draw(st.integers(2, 130)), "nphi": draw(st.integers(1, 130)), "use_cheb": draw(st.booleans())}
    if not s["use_cheb"] or draw(st.booleans()):
        s["cfl"] = draw(st.one_of(st.sampled_from([0.75, 0.5, 0.1]), gen.fl(0.01, 2)))
    s["bin_name"] = BINS[1] if s["use_cheb"] else BINS[0]
    cf = st.one_of(st.sampled_from([0.0, 1.0, 100.0, -0.5, 1e-5]), gen.fl(-1e3, 1e3), st.floats(allow_nan=False, allow_infinity=False, allow_subnormal=False))
    for k in ("km1", "k0", "k1", "k2", "V2", "V3", "V4", "amp"):
        s[k] = draw(cf)
    s["rl_0"] = draw(st.one_of(st.sampled_from([-1.0, 1.1]), gen.fl(-3, 10)))
    if abs(s["rl_0"]) < 1e-6:
        s["rl_0"] = 0.0             # products stay normal numbers
    s["ru_0"] = s["rl_0"] + draw(st.one_of(st.just(4.0), gen.fl(0.1, 30)))
    s["l_ang"] = draw(st.integers(0, 20))
    s["m_ang"] = draw(st.integers(0, 20))
    s["initial_data_type"] = "compact_pulse"
    s["initial_data_direction"] = draw(st.sampled_from(["ingoing", "outgoing", "time_symmetric"]))
    if draw(st.integers(0, 5)) == 3:        # whole numbers written without a point
        M = s["black_hole_mass"] = draw(st.sampled_from([1, 1, 2, 3, 10]))
        s["black_hole_spin"] = draw(st.sampled_from([0, M, -M, 0.5 * M, M - 1, 1 - M]))
        s["compactification_length"] = draw(st.sampled_from([10, 20, 25, 7]))
        s["evolve_time"] = draw(st.integers(1, 700))
        for k, v in (("cfl", 1), ("rl_0", -1), ("ru_0", 3), ("k0", 1), ("V2", 1), ("amp", 1)):
            if k in s and draw(st.booleans()):
                s[k] = v
        if s["ru_0"] <= s["rl_0"]:
            s["ru_0"] = s["rl_0"] + 4
    return s

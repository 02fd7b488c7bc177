"""Runs a history of launches with the sim_class.py of the current directory.

usage: launch_driver.py CASE.json REPORT.json     (cwd = a scratch checkout)
"""
import json, os, sys

home = os.getcwd()
sys.path.insert(0, home)
sys.dont_write_bytecode = True
case = json.load(open(sys.argv[1]))


def enc(v):
    if isinstance(v, bool) or v is None or isinstance(v, (int, str)):
        return v
    if isinstance(v, float):
        return {"f": v.hex()}
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    return {"r": repr(v)}


def dec(v):
    if isinstance(v, dict):
        return float.fromhex(v["f"])
    if isinstance(v, list):
        return [dec(x) for x in v]
    return v


def tree():
    import hashlib
    out = {}
    for root in case["roots"]:
        for b, ds, fs in os.walk(root):
            for x in ds:
                out[os.path.join(b, x) + "/"] = ""
            for x in fs:
                p = os.path.join(b, x)
                try:
                    out[p] = hashlib.sha1(open(p, "rb").read()).hexdigest()
                except OSError as e:
                    out[p] = str(e)
    return out


import sim_class

report = []
sims = []
for L in case["launches"]:
    if L.get("sh"):         # something the user does in another terminal between two launches of this process
        import subprocess as sp
        sp.run(L["sh"], stdin=sp.DEVNULL, stdout=sp.DEVNULL, stderr=sp.DEVNULL)
    r = {"before": tree(), "error": None}
    open(os.environ["REC_LOG"], "w").close()
    sim = None
    try:
        if L.get("template"):
            real = sim_class.Sim
            box = []

            class Wrapped(real):
                def launch_run(self):
                    for k, v in L["settings"].items():
                        setattr(self, k, dec(v))
                    box.append(self)
                    return real.launch_run(self)
            sim_class.Sim = Wrapped
            try:
                src = open("runscript_template.py").read()
                exec(compile(src, "runscript_template.py", "exec"), {"__name__": "__main__"})
            finally:
                sim_class.Sim = real
            sim = box[0]
        else:
            sim = sim_class.Sim() if L.get("reuse") is None else sims[L["reuse"]]
            for k, v in L["settings"].items():
                old, new = getattr(sim, k, None), dec(v)
                if isinstance(old, list) and isinstance(new, list) and L["settings"].get("num_threads", 0) % 3:
                    old[:] = new        # a list changed in place
                else:
                    setattr(sim, k, new)
            if L.get("only_derive"):
                sim.set_derived_params()
            else:
                sim.launch_run()
    except BaseException as e:
        r["error"] = "%s: %s" % (type(e).__name__, e)
    sims.append(sim)
    r["cwd"] = os.getcwd()
    os.chdir(home)
    r["after"] = tree()
    r["log"] = open(os.environ["REC_LOG"]).read()
    r["vars"] = {k: enc(v) for k, v in vars(sim).items()} if sim is not None else {}
    report.append(r)
with open(sys.argv[2], "w") as f:
    json.dump(report, f)

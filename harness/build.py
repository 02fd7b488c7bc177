"""Builds the harness binaries from /repo's working tree, with a content-hashed cache."""
import glob, hashlib, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "Source")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
HARN = os.path.join(VERIF, "harness")
SHT = os.path.join(VERIF, "shtns_ref")

# main.cpp has its own entry point; unit_manager.cpp is not part of the project's
# build and does not compile (it uses members that no longer exist).
NOT_LINKED = {"main.cpp", "unit_manager.cpp"}

VARIANTS = {
    "fd_lon":   ["-DSHTNS_CONTIGUOUS_LONGITUDES"],
    "cheb_lon": ["-DUSE_CHEB", "-DSHTNS_CONTIGUOUS_LONGITUDES"],
    "fd_phi":   [],
    "cheb_phi": ["-DUSE_CHEB"],
}
FLAVOURS = {
    "opt": ["-g1", "-O3", "-DNDEBUG", "-fopenmp"],
    "san": ["-g1", "-O1", "-fopenmp", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
            "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
    # g++'s sanitizers skip accesses to the parts of complex numbers; clang's do not (no OpenMP runtime, so one thread)
    "csan": ["-g1", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr,function,enum",
             "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-Wno-everything", "-I" + os.path.join(HARN, "serial")],
    "vg": ["-g1", "-O1", "-DNDEBUG", "-fopenmp"],          # run under valgrind's memcheck
    "tsan": ["-g1", "-O1", "-fopenmp", "-fsanitize=thread", "-DNDEBUG"],
}
CXX = "g++"
CLANG = ("csan",)
OPTIONAL = {"csan": "san"}      # flavours that another one stands in for where they cannot be built
FFTW = ["r2r_1d", "r2r", "many_r2r", "dft_1d", "dft_r2c_1d", "dft_c2r_1d", "guru_r2r"]


class BuildError(Exception):
    pass


def _h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else p.encode())
        m.update(b"\0")
    return m.hexdigest()[:32]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _headers_key():
    hs = sorted(p for p in glob.glob(SRC + "/*") if os.path.isfile(p)
                and not p.endswith((".cpp", ".o", ".swp", "Makefile", ".gitignore")))
    hs += [os.path.join(SHT, "shtns.h")]
    return _h(*[os.path.basename(p).encode() + b"=" + _read(p) for p in hs])


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-6000:]))


def _compile(src, flags, hk, cxx=CXX):
    key = _h(_read(src), hk, " ".join(flags), os.path.basename(src), cxx)
    obj = os.path.join(CACHE, "o", key + ".o")
    if not os.path.exists(obj):
        tmp = "%s.%d.%s.tmp" % (obj, os.getpid(), _h(src)[:6])
        _run([cxx] + flags + ["-I" + SHT, "-I" + SRC, "-c", "-o", tmp, src])
        os.replace(tmp, obj)
    return obj, key


def _plan(variant, flavour, kind):
    fl = FLAVOURS[flavour] + VARIANTS[variant]
    base = [p for p in sorted(glob.glob(SRC + "/*.cpp")) if os.path.basename(p) not in NOT_LINKED]
    jobs = [(p, ["-std=c++11"] + fl) for p in base]
    if kind == "main":
        jobs.append((os.path.join(SRC, "main.cpp"), ["-std=c++11"] + fl))
    else:
        sfl = [x if x != "-O3" else "-O1" for x in fl]
        jobs.append((os.path.join(HARN, "server.cpp"), ["-std=c++17"] + sfl))
    inst = [x for x in FLAVOURS[flavour] if x.startswith("-fsanitize=thread") or (flavour == "csan" and x.startswith("-f"))]
    jobs.append((os.path.join(SHT, "shtns.cpp"), ["-std=c++17", "-O2", "-g1"] + inst))
    jobs.append((os.path.join(HARN, "fftw_wrap.cpp"), ["-std=c++17", "-O2"]))
    if flavour == "tsan":
        jobs.append((os.path.join(HARN, "gomp_shim.cpp"), ["-std=c++17", "-O1", "-g1", "-fsanitize=thread"]))
    return jobs


def tsan_works(scratch):
    """True if the thread sanitizer runs here and tells a racy program from a clean one."""
    src = os.path.join(scratch, "ts.cpp")
    with open(src, "w") as f:
        f.write("""#include <vector>
#include <cstdio>
int main(int argc,char**) {
   std::vector<double> v(64,1.0), w(64,0.0); double s=0; int shared=0;
#pragma omp parallel for reduction(+:s)
   for (int i=0;i<64;i++) { w[i]=2*v[i]; s+=w[i]; if (argc>1) shared=i; }
#pragma omp parallel sections
   {
#pragma omp section
   { v[0]=3; }
#pragma omp section
   { v[1]=4; }
   }
   std::printf("%g %d\\n",s+v[0]+v[1],shared);
   return s==128?0:1;
}
""")
    exe = os.path.join(scratch, "ts")
    try:
        _run([CXX, "-std=c++17", "-O1", "-g1", "-fopenmp", "-fsanitize=thread", "-c", "-o", exe + ".o", src])
        sh, _ = _compile(os.path.join(HARN, "gomp_shim.cpp"), ["-std=c++17", "-O1", "-g1", "-fsanitize=thread"], "")
        _run([CXX, "-fsanitize=thread", "-pthread", "-o", exe, exe + ".o", sh])
        env = dict(os.environ, TSAN_OPTIONS="exitcode=66:halt_on_error=1")
        a = subprocess.run([exe], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, timeout=60).returncode
        b = subprocess.run([exe, "x"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, timeout=60).returncode
    except (BuildError, OSError, subprocess.TimeoutExpired):
        return False
    return a == 0 and b == 66


def ensure(targets):
    """targets: iterable of (variant, flavour[, kind]); kind is 'server' or 'main'.
    Returns {target: path}."""
    os.makedirs(os.path.join(CACHE, "o"), exist_ok=True)
    os.makedirs(os.path.join(CACHE, "bin"), exist_ok=True)
    targets = [t if len(t) == 3 else (t[0], t[1], "server") for t in targets]
    opt = [t for t in targets if t[1] in OPTIONAL]
    out = _ensure([t for t in targets if t not in opt])
    for t in opt:
        try:
            out.update(_ensure([t]))
        except BuildError as e:
            sys.stderr.write("%s build not possible, %s used instead: %s\n" % (t[1], OPTIONAL[t[1]], str(e)[-300:]))
            out[t] = _ensure([(t[0], OPTIONAL[t[1]], t[2])])[(t[0], OPTIONAL[t[1]], t[2])]
    return out


def _ensure(targets):
    hk = _headers_key()
    plans = {t: _plan(*t) for t in targets}
    cxx = lambda t: "clang++" if t[1] in CLANG else CXX
    uniq = {}
    for t, jobs in plans.items():
        for s, f in jobs:
            uniq[(s, tuple(f), cxx(t))] = None
    order = sorted(uniq, key=lambda k: -os.path.getsize(k[0]))
    with ThreadPoolExecutor(8) as ex:
        res = dict(zip(order, ex.map(lambda k: _compile(k[0], list(k[1]), hk, k[2]), order)))

        def link(t):
            objs = [res[(s, tuple(f), cxx(t))] for s, f in plans[t]]
            variant, flavour, kind = t
            lf = [x for x in FLAVOURS[flavour] if x.startswith("-fsanitize")]
            if flavour == "tsan":
                lf += ["-pthread"]
            elif flavour != "csan":
                lf += ["-fopenmp"]
            key = _h(" ".join(k for _, k in objs), " ".join(lf + FFTW))
            out = os.path.join(CACHE, "bin", "%s_%s_%s_%s" % (kind, variant, flavour, key))
            if not os.path.exists(out):
                tmp = out + ".%d.tmp" % os.getpid()
                _run([cxx(t)] + lf + ["-o", tmp] + [o for o, _ in objs]
                     + ["-Wl,--wrap=fftw_plan_" + x for x in FFTW] + ["-lfftw3", "-lm"])
                os.replace(tmp, out)
            return out
        links = list(ex.map(link, targets))
    return {t: p for t, p in zip(targets, links)}


if __name__ == "__main__":
    import time
    t0 = time.time()
    tg = [tuple(a.split(":")) for a in sys.argv[1:]] or [(v, f) for v in VARIANTS for f in ("opt", "san")]
    for k, v in ensure(tg).items():
        print(k, v)
    print("%.1fs" % (time.time() - t0))

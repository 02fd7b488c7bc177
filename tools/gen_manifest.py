"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHT = "SHTns is replaced by a stand-in written from its documentation"
T = {
 "C01": ("random sizes/intervals/coefficients vs dense cosine-matrix model, round trip", "Generated inputs only."),
 "C02": ("random polynomials vs exact Chebyshev derivative recurrence", "Generated inputs only; exactness claimed up to degree n-3 (the two highest modes are dropped by design)."),
 "C03": ("random spectra vs mode-by-mode damping model", "Generated inputs only."),
 "F01": ("random data vs exact-rational (Fornberg) stencil matrix", "Generated inputs only, n>=9 (the smallest size every operation accepts)."),
 "F02": ("random data vs exact-rational (Fornberg) stencil matrix", "Generated inputs only."),
 "F03": ("random data vs eighth-difference filter matrix; polynomial invariance", "Generated inputs only."),
 "S01": ("random band-limited spectra vs scipy harmonics, round trip", SHT + "."),
 "S02": ("random band-limited spectra vs analytic angular derivatives", SHT + "; ladder operators and sphereX only for l<=nm."),
 "S03": ("random spectra vs per-(l,m) damping factors", SHT + "."),
 "S04": ("random spectra vs sum of squared amplitudes; rotation invariance", SHT + "."),
 "S05": ("random 3D fields vs dense Chebyshev analysis of the angular amplitude, closed-form cases", SHT + "."),
 "G01": ("exhaustive index maps and random row access on random grid shapes vs model", SHT + "."),
 "G02": ("random resolved 3D fields vs dense operator matrices", SHT + "."),
 "G03": ("random 3D fields vs tensor product of angular and radial filter matrices", SHT + "."),
 "G04": ("random fields vs definitions of residual and total variation", SHT + "."),
 "E01": ("random states/couplings/Kerr parameters vs box operator of the numerically inverted metric", SHT + "; line element in checks/ref.py is trusted."),
 "E02": ("random states vs stress tensor contracted with the unit normal of the numerically inverted metric", SHT + "; line element in checks/ref.py is trusted."),
 "E03": ("stateful operation histories vs numpy RK4 model", SHT + "; the model takes filter and right-hand side from separate objects (decided by G03 and E01)."),
 "E04": ("metamorphic: evolution of transformed states vs transformed evolution", SHT + "."),
 "I01": ("random pulse parameters vs analytic bump times scipy harmonics", SHT + "."),
 "O01": ("stateful write histories, whole directory compared with a model after every write", SHT + "."),
 "P01": ("generated parameter files (permuted, extended, missing lines) vs parsed values", "Numbers are normal doubles; integers fit 32 bits."),
 "L01": ("generated launch settings vs exact-arithmetic model of horizon, bounds and stepping", "sim_class.py runs in a scratch copy with recording stand-ins for programs."),
 "L02": ("generated launch settings and injected faults; recorded launches and files vs model", "sim_class.py runs in a scratch copy as an unprivileged user with recording stand-ins."),
 "T01": ("generated operation sequences across thread counts/nesting vs single thread, bitwise; thread sanitizer", SHT + "; the sanitizer build uses an own OpenMP runtime; FFTW is not instrumented."),
 "M01": ("stateful create/use/destroy histories vs isolated objects under the address/UB sanitizers of g++ and clang and valgrind's memcheck, heap measurement", SHT + "; uninitialised reads are found through differing heap fill patterns and on a smaller number of histories by memcheck."),
 "X01": ("generated parameter files, whole executable runs vs independent dense solver; rerun and cross-scheme differential", SHT + "; all m resolved (nm=nl)."),
 "W01": ("generated configurations and launch histories run end to end (launch script, real executables, job scripts) vs independent derivation and dense solver", SHT + "; sbatch and time are stand-ins; grids of up to 24 radial points."),
 "B01": ("generated build histories run through the real Makefile/config script, executables probed for scheme and layout", SHT + "; runs in a scratch copy."),
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    t, n = T[i]
    checks.append({"property": i, "quick_cmd": "./run_check.py " + i, "thorough_cmd": "VERIF_TIER=thorough ./run_check.py " + i,
                   "technique": "property-based testing: " + t, "level": "exploration",
                   "level_note": "Holds on every generated case and every saved failing input; not a proof. " + n})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the harness links the unmodified sources. Replay a failure with ./run_check.py <id> --replay <file>."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

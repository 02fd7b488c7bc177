#!/opt/veriftools/pyvenv/bin/python3
"""run_check.py <property> [--replay FILE]"""
import os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
for k in ("OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[k] = "1"
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.path.insert(0, os.path.join(HERE, "harness"))
import fw
import build

if __name__ == "__main__":
    pid = sys.argv[1]
    rp = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == "--replay" else None
    try:
        rc = fw.main(pid, rp)
    except build.BuildError as e:
        sys.stderr.write("build failed:\n%s\n" % e)
        rc = 2
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)

#!/opt/venv/bin/python
"""check.py <property> [quick|thorough]   or   check.py --replay <file>

Exit 0: the property held on every simulated run.  Exit 1 and a VIOLATION line: it is broken.  Exit 3: the check itself
failed.
"""
import os
import sys

FIXED = {"OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1",
         "SOURCE_DATE_EPOCH": "1545000000"}
if "PYTHONHASHSEED" not in os.environ:
    FIXED["PYTHONHASHSEED"] = "0"
if not os.access(os.environ.get("MPLCONFIGDIR", "/nonexistent"), os.W_OK):
    FIXED["MPLCONFIGDIR"] = "/opt/mplconfig" if os.path.isdir("/opt/mplconfig") else "/tmp"
PY = "/opt/venv/bin/python"
if any(os.environ.get(k) != v for k, v in FIXED.items()) or (sys.executable != PY and os.path.exists(PY)):
    os.environ.update(FIXED)
    exe = PY if os.path.exists(PY) else sys.executable
    os.execve(exe, [exe, "-B", os.path.abspath(__file__)] + sys.argv[1:], os.environ)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

if __name__ == "__main__":
    import traceback
    try:
        from sim import runner
        code = runner.main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print("ERROR: the check failed, no verdict")
        code = 3
    sys.stdout.flush()
    os._exit(code)

"""Run checks against seeded changes in scratch copies: runseeded.py [ID ...] [--props C01,C02]."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main(args):
    props = None
    if "--props" in args:
        i = args.index("--props")
        props = args[i + 1].split(",")
        del args[i:i + 2]
    for b in args or sorted(os.listdir(HERE + "/seeded")):
        meta = json.load(open("%s/seeded/%s/meta.json" % (HERE, b)))
        top = tempfile.mkdtemp(prefix="optics-seeded-")
        try:
            subprocess.run(["cp", "-a", "/repo", top + "/repo"], check=True)
            subprocess.run(["git", "apply", "%s/seeded/%s/patch.diff" % (HERE, b)], cwd=top + "/repo", check=True)
            for p in props or [meta["property"]]:
                t = time.time()
                r = subprocess.run([sys.executable, HERE + "/check.py", p, "quick"], capture_output=True, text=True,
                                   env=dict(os.environ, OPTICS3D_REPO=top + "/repo"))
                line = [x for x in r.stdout.splitlines() if x.startswith("run ")]
                print("%-34s %s rc=%d %.0fs %s" % (b, p, r.returncode, time.time() - t, (line or [""])[0][:150]), flush=True)
        finally:
            shutil.rmtree(top)


if __name__ == "__main__":
    main(sys.argv[1:])

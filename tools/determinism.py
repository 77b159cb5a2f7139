"""Run seeds twice (and in another order) and compare the digests of everything observed.
usage: determinism.py PROP N [START]   -- prints the runs whose digests differ, and one digest over all"""
import hashlib
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import gc
from sim import runner


def main():
    pid, n = sys.argv[1], int(sys.argv[2])
    start = int(sys.argv[3]) if len(sys.argv) > 3 else 0
    gc.disable()
    p = runner.load(pid)
    if hasattr(p, "prepare"):
        p.prepare()
    bad, h = [], hashlib.sha256()
    d1 = {}
    for rep in (0, 1):
        for i in (range(start, start + n) if rep == 0 else reversed(range(start, start + n))):
            st = runner.Stats()
            v = runner.run_case(p, runner.gen_case(p, 1, i, "quick"), st)
            d = (st.digest.hexdigest(), v)
            if rep == 0:
                d1[i] = d
                h.update(repr(d).encode())
            elif d1[i] != d:
                bad.append(i)
        gc.collect()
    print(pid, n, "runs twice; differing:", bad, "digest", h.hexdigest()[:24])


main()

#!/bin/bash
# tools/profile.sh PID first last : profile some cases in-process on the last build of the check
cd /verif; pkg=${3:-/verif/.cache/rel-43c6d08d/pkg}
VF_PKG=$pkg PYTHONPATH=/verif OPENBLAS_NUM_THREADS=1 /opt/venv/bin/python - $1 $2 <<'P'
import sys, os, importlib, time, zlib, cProfile, pstats
from vf import fr; fr.load(os.environ["VF_PKG"])
import numpy as np
from vf.monitor import Mon
pid, n = sys.argv[1], int(sys.argv[2])
mod = importlib.import_module("vf.checks."+pid); mon = Mon("rel", "quick")
ts=[]
def go():
    for i in range(n):
        rng = np.random.default_rng([1, zlib.crc32(pid.encode()), i]); mon.start(i)
        fr.freud.parallel.set_num_threads(int((1,2,3,8)[int(rng.integers(4))]))
        t=time.time(); mod.case(i, rng, mon); ts.append((time.time()-t,i))
pr=cProfile.Profile(); pr.runcall(go)
pstats.Stats(pr).sort_stats("tottime").print_stats(14)
print(sorted(ts)[-8:], sum(t for t,_ in ts)/len(ts))
P

"""Runs the deterministic cases i = shard (mod nshards) of one check and records what its monitors saw."""
import importlib, json, os, sys, time, traceback, zlib

pid, shard, nshards, seed, tier, ncases, cap, outdir = sys.argv[1:9]
shard, nshards, seed, ncases, cap = int(shard), int(nshards), int(seed), int(ncases), float(cap)
only = int(sys.argv[9]) if len(sys.argv) > 9 else None


def main():
    from vf import fr
    fr.load(os.environ["VF_PKG"])
    import numpy as np
    from vf.monitor import Mon, Violation
    import faulthandler, warnings
    faulthandler.enable()
    warnings.filterwarnings("ignore")
    mod = importlib.import_module("vf.checks." + pid)
    mon = Mon(os.environ.get("VF_VARIANT"), tier)
    res = dict(done=False)
    t0 = time.time()

    def dump():
        res.update(mon.export())
        tmp = os.path.join(outdir, "result.tmp")
        with open(tmp, "w") as f:
            json.dump(res, f, default=str)
        os.replace(tmp, os.path.join(outdir, "result.json"))

    prog = open(os.path.join(outdir, "progress"), "w")
    order = range(shard, ncases, nshards) if only is None else [only]
    last = time.time()
    threads = getattr(mod, "THREADS", (1, 2, 3, 8))
    for i in order:
        if time.time() - t0 > cap and only is None:
            mon.event("stopped_at_wall_cap")
            break
        prog.seek(0)
        prog.write(str(i))
        prog.truncate()
        prog.flush()
        os.utime(os.path.join(outdir, "progress"))
        rng = np.random.default_rng([seed, zlib.crc32(pid.encode()), i])
        if threads:
            fr.freud.parallel.set_num_threads(int(threads[int(rng.integers(len(threads)))]))
        mon.start(i)
        tc = time.time()
        try:
            mod.case(i, rng, mon)
        except Violation as v:
            mon.violation(str(v), v.detail)
        except (MemoryError, ImportError):
            traceback.print_exc()
            dump()
            sys.exit(3)
        except Exception as e:
            mon.violation("unexpected %s: %s" % (type(e).__name__, e), traceback.format_exc())
        if os.environ.get("VF_SLOW") and time.time() - tc > float(os.environ["VF_SLOW"]):
            with open(os.environ.get("VF_SLOW_LOG", "/tmp/vf-slow.log"), "a") as f:
                print(pid, seed, i, round(time.time() - tc, 1), file=f)
        if mon.violations:
            dump()
            break
        if time.time() - last > 5:
            dump()
            last = time.time()
    res["done"] = True
    dump()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)   # interpreter teardown is not part of any property


if __name__ == "__main__":
    main()

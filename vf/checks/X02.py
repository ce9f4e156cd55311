"""Thread counts, range partitions and interleavings: same results, no data races."""
import ctypes, glob, os, re
import numpy as np
from vf import fr, geo, zoo, nb
from vf.geo import f32

PHASES = dict(quick=[dict(variant="tsan", dirs=None, cases=1160, cap=150, workers=6), dict(variant="sched", dirs=None, cases=2900, cap=60, workers=6), dict(variant="rel", dirs=None, cases=2900, cap=60, workers=4),
                     dict(variant="rel", dirs=zoo.EXTRA_DIRS, full="try", zoo="extra", cases=900, cap=30, workers=4)],
              thorough=[dict(variant="tsan", dirs=None, cases=40000, cap=300, workers=6), dict(variant="sched", dirs=None, cases=200000, cap=150, workers=6), dict(variant="rel", dirs=None, cases=100000, cap=60, workers=4),
                        dict(variant="tsan", dirs=zoo.EXTRA_DIRS, full="try", zoo="extra", cases=10000, cap=100, workers=6),
                        dict(variant="sched", dirs=zoo.EXTRA_DIRS, full="try", zoo="extra", cases=20000, cap=40, workers=6)])
RULE = ("every analysis, finder, filter and box operation on random systems (1-400 points), computed with one thread and again with 2-8 threads: under ThreadSanitizer with a scheduler that cuts ranges at random places, deals the "
        "pieces to threads at random and delays them, under the same scheduler optimised, and under the real TBB scheduler; integer results bit-identical, others to summation order; race reports with a freud frame; "
        "set_num_threads/NumThreads sequences against the scheduler's active thread count; non-trivial = at least one loop split over threads (scheduler statistics); distinct by (analysis, threads)")
REQUIRED = dict(compared=8000, loops_split_over_threads=4000, distinct_schedules=3000, thread_settings=2000)
ASSUMPTIONS = ["ThreadSanitizer sees the code of freud and the TBB containers it instantiates; the TBB scheduler itself is replaced in that build",
               "the real scheduler is run as the machine happens to schedule it"]
THREADS = None
SHIM = None


def shim():
    global SHIM
    if SHIM is None:
        lib = ctypes.CDLL(fr.freud._locality.__file__)
        SHIM = lib
        lib.vf_shim_seed.argtypes = [ctypes.c_uint64, ctypes.c_int]
    return SHIM


def shims():
    if not hasattr(shims, "libs"):
        shims.libs = []
        for f in sorted(glob.glob(os.path.join(os.path.dirname(fr.freud._locality.__file__), "_*.so"))):
            lib = ctypes.CDLL(f)
            if hasattr(lib, "vf_shim_seed"):
                lib.vf_shim_seed.argtypes = [ctypes.c_uint64, ctypes.c_int]
                shims.libs.append(lib)
    return shims.libs


def stats():
    tot = np.zeros(6, np.uint64)
    for lib in shims():
        o = (ctypes.c_uint64 * 6)()
        lib.vf_shim_stats(o)
        tot += np.array(list(o), np.uint64)
        active = int(o[5])
    tot = [int(x) for x in tot]
    tot[5] = active
    return tot


def seed(s, delays=1):
    for k, lib in enumerate(shims()):
        lib.vf_shim_seed(int(s) + k, delays)


SEEN = {}


def case(i, rng, mon):
    par = fr.freud.parallel
    shimmed = mon.variant in ("tsan", "sched")
    if i % 25 == 24:
        settings(rng, mon, shimmed)
    if i % 4 == 3 and zoo.pool() is zoo.ALL:
        return other(i, rng, mon, shimmed)
    e = zoo.pool()[(i // 4 * 3 + i % 4) % len(zoo.pool())]
    P = e.params(rng)
    frames = [e.frame(rng, P)]
    if rng.random() < 0.4:
        big(rng, e, P, frames[0])
    if e.accum and e.name != "MSD":
        for _ in range(int(rng.integers(0, 3))):
            frames.append(e.frame(rng, P, like=frames[0]))
    mon.describe(analysis=e.name, params=P, box=frames[0].ob.params() if frames[0].ob else None, points=frames[0].p, query=frames[0].q, neighbors=str(frames[0].neighbors)[:150], kw=frames[0].kw, frames=len(frames))
    sd = int(rng.integers(1, 2 ** 40))

    def run(counts, reads=()):
        obj = e.new(P)
        for k, f in enumerate(frames):
            par.set_num_threads(counts[k % len(counts)])
            e.call(obj, f, reset=False if k else None)
            if k in reads:
                e.read(obj)
        return e.read(obj)
    if shimmed:
        seed(sd, 0)
    try:
        want = run([1])
    except Exception as ex:
        mon.event("rejected_frames")
        par.set_num_threads(4)
        mon.raises(type(ex), lambda: run([4]), "same rejection with more threads")
        return
    reps = 2 if mon.variant == "tsan" else 4
    for r in range(reps):
        counts = [int(x) for x in rng.choice([2, 3, 4, 5, 8] if mon.variant != "tsan" else [2, 3, 4], size=int(rng.integers(1, 3)))]
        if shimmed:
            seed(sd + 100 * (r + 1), 1 if rng.random() < 0.7 else 0)
        got = run(counts, reads=[k for k in range(len(frames)) if rng.random() < 0.3])
        compare(mon, e, got, want, "with %s threads" % counts)
        mon.event("compared")
    tally(mon, shimmed, e.name, counts[0])


def compare(mon, e, got, want, what):
    if e.name in ("AABBQuery.query", "LinkCell.query", "FilterSANN", "FilterRAD"):
        for k in want:
            if want[k].ndim == 2:
                mon.check(got[k].shape == want[k].shape, "%s: %s.%s has another shape" % (what, e.name, k), got=got[k], want=want[k])
                mon.check(np.array_equal(srt(got[k]), srt(want[k])), "%s: %s.%s differs" % (what, e.name, k), got=got[k], want=want[k])
                mon.check(np.array_equal(got[k][:, 0], want[k][:, 0]), "%s: %s.%s is ordered differently" % (what, e.name, k))
        got = {k: v for k, v in got.items() if v.ndim != 2}
        want = {k: v for k, v in want.items() if v.ndim != 2}
    if e.name == "Voronoi":      # the order of bonds that tie in (i, j, weight) is free
        mon.check(np.array_equal(got["nlist"][:, :2], want["nlist"][:, :2]), "%s: Voronoi.nlist is ordered differently" % what)
        got, want = dict(got, nlist=srt(got["nlist"].round(6))), dict(want, nlist=srt(want["nlist"].round(6)))
    if e.name == "Nematic":      # an eigenvector: its sign is free (degenerate ones are not judged here)
        a, b = np.asarray(got["director"], float), np.asarray(want["director"], float)
        got, want = dict(got, director=a * (-1 if a @ b < 0 else 1)), dict(want, director=b)
        w = np.linalg.eigvalsh(np.asarray(want["nematic_tensor"], float))
        if w[2] - w[1] < 1e-2:
            got["director"] = b
    zoo.same(mon, e, got, want, what, rtol=3e-5, atol=3e-5)


def srt(a):
    return a[np.lexsort(a.T[::-1])]


def tally(mon, shimmed, *sig):
    if shimmed:
        s = stats()
        for k, name in enumerate(("loops", "loops_split_over_threads", "pieces", "distinct_schedules", "sorts")):
            mon.event(name, s[k] - SEEN.get(name, 0))
            SEEN[name] = s[k]
    mon.sig(*sig)


def big(rng, e, P, f):
    """More points than the small frames have."""
    if e.name in ("PeriodicBuffer", "UnitCell", "LinkCell.query", "StaticStructureFactorDebye", "DiffractionPattern", "StaticStructureFactorDirect", "Voronoi", "ContinuousCoordination") or f.ob is None or isinstance(f.neighbors, tuple):
        return
    n = int(rng.integers(100, 400))
    k = len(f.p)
    qk = f.nq
    if k == 0:
        return
    for name, v in f.arrays.items():
        kind, a = v
        if kind == "p" and len(a) == k:
            v[1] = np.resize(a, (n,) + a.shape[1:])
        elif kind == "q" and f.q is None and len(a) == qk:
            v[1] = np.resize(a, (n,) + a.shape[1:])
    f.p = geo.points(rng, f.ob, n)
    if e.name == "ClusterProperties":
        f.arrays["cluster_idx"][1] = f.arrays["cluster_idx"][1].astype(np.uint32)


def other(i, rng, mon, shimmed):
    """Box operations, Voronoi-free locality pieces and neighbor list methods that use parallel loops."""
    par = fr.freud.parallel
    ob = geo.random_box(rng, None, lo=3, hi=10, maxtilt=0.6)
    box = ob.freud()
    n, m = geo.nonzero_n(rng, 200), geo.nonzero_n(rng, 60)
    p, q = geo.points(rng, ob, n), geo.points(rng, ob, m)
    far = f32(p + ob.abs(rng.integers(-3, 4, size=(n, 3)) + 0.5))
    if ob.is2D:
        far[:, 2] = 0
    im = rng.integers(-3, 4, size=(n, 3)).astype(np.int32)
    w = f32(rng.random(n) + 0.5)
    ops = dict(wrap=lambda: box.wrap(far), unwrap=lambda: box.unwrap(p, im), images=lambda: box.get_images(far), frac=lambda: box.make_fractional(p), abs=lambda: box.make_absolute(rngf),
               dist=lambda: box.compute_distances(p, far), all=lambda: box.compute_all_distances(p, q), contains=lambda: box.contains(far), com=lambda: box.center_of_mass(p, w), center=lambda: box.center(p, w))
    rngf = f32(rng.random((n, 3)))
    r = float(np.float32(ob.rlim() * rng.uniform(0.2, 0.9)))
    L = fr.freud.locality

    def nlists():
        nq = L.AABBQuery(box, p)
        a = nq.query(q, dict(r_max=r)).toNeighborList()
        b = a.copy()
        b.filter_r(r * 0.7, r * 0.1)
        return np.concatenate([nb_cols(a).ravel(), nb_cols(b).ravel(), np.asarray(a.neighbor_counts, float), np.asarray(b.segments, float)])

    def allpairs():
        a = L.NeighborList.all_pairs((box, p[:60]), q)
        return nb_cols(a).ravel()

    def lc():
        nq = L.LinkCell(box, p, cell_width=max(float(ob.planes()[: ob.d].min()) * 0.3, r * 0.5))
        return nb_cols(nq.query(q, dict(r_max=r)).toNeighborList()).ravel()
    ops.update(nlists=nlists, lc=lc, allpairs=allpairs)
    mon.describe(box=ob.params(), points=p, query=q, r_max=r)
    sd = int(rng.integers(1, 2 ** 40))
    for name, fn in ops.items():
        par.set_num_threads(1)
        if shimmed:
            seed(sd, 0)
        try:
            want = np.asarray(fn(), float)
        except (ValueError, RuntimeError):
            continue
        for T in rng.choice([2, 3, 4, 8] if mon.variant != "tsan" else [2, 4], size=2):
            if shimmed:
                seed(sd + int(T), 1)
            par.set_num_threads(int(T))
            got = np.asarray(fn(), float)
            mon.check(got.shape == want.shape and np.array_equal(got, want, equal_nan=True), "%s differs with %d threads" % (name, T), got=got, want=want)
            mon.event("compared")
    tally(mon, shimmed, "box/locality", int(T), ob.d)


def nb_cols(nl):
    return srt(zoo.as_array(nl))


def settings(rng, mon, shimmed):
    """Random sequences of thread settings against a model (and the scheduler's own limit)."""
    par = fr.freud.parallel
    par.set_num_threads(None)
    model = 0
    hw = os.cpu_count()

    def look(where):
        mon.check(par.get_num_threads() == model, "get_num_threads after %s" % where, got=par.get_num_threads(), want=model)
        if shimmed:
            a = stats()[5]
            mon.check(a == model if model else a >= min(2, hw), "threads in use after %s: %d, expected %s" % (where, a, model or "all"))
        mon.event("thread_settings")
    look("set_num_threads(None)")

    class Stop(Exception):
        pass

    def walk(depth):
        nonlocal model
        for _ in range(int(rng.integers(1, 5))):
            k = int(rng.integers(4))
            n = [None, 0, 1, 2, 3, 4, 8, -1][int(rng.integers(8))]
            val = 0 if n is None or n < 0 else n
            if k < 2 or depth == 0:
                par.set_num_threads(n)
                model = val
                look("set_num_threads(%s)" % n)
            else:
                before = model
                try:
                    with par.NumThreads(n) as c:
                        model = val
                        mon.check(isinstance(c, par.NumThreads), "NumThreads enters as itself")
                        look("entering NumThreads(%s)" % n)
                        walk(depth - 1)
                        if rng.random() < 0.3:
                            raise Stop
                except Stop:
                    mon.event("contexts_left_by_exception")
                model = before
                look("leaving NumThreads(%s)" % n)
    walk(3)
    par.set_num_threads(None)


FRAME = re.compile(r"^\s*#\d+ (.*?)(?: (\S+:\d+)(?::\d+)?)? \(.*\)\s*$|^\s*#\d+ (.*)$")


def post(ph, results, total, violations, known):
    if ph["variant"] != "tsan":
        return
    seen = {}
    n = 0
    for r in results:
        for rep in r.get("tsan", "").split("=================="):
            if "WARNING: ThreadSanitizer" not in rep:
                continue
            n += 1
            if "/freud/" not in rep:
                continue
            stacks = re.split(r"\n\s*\n", rep)
            acc = [s for s in stacks if re.search(r"(Write|Read|Atomic|write|read) of size", s)][:2]
            if acc and all(re.search(r"#0 lgamma", s) for s in acc):
                continue    # libm's signgam, written by libstdc++'s Bessel functions
            where = []
            for s in acc:
                m = [ln for ln in s.splitlines() if "/src/freud/" in ln or "/freud/" in ln]
                m = [ln for ln in m if "/util/" not in ln] or m
                where.append(re.sub(r".*?#\d+ ", "", m[0]).split(" (")[0] if m else "?")
            kind = re.search(r"ThreadSanitizer: (.*?) \(", rep)
            writes = all(re.search(r"[Ww]rite of size 4", s) for s in acc) and len(acc) == 2
            if writes and all("SphereVoxelization" in a for a in acc) and all("SphereVoxelization" in w for w in where):
                total["known"]["race-SphereVoxelization"] = total["known"].get("race-SphereVoxelization", 0) + 1
                continue
            key = (kind.group(1) if kind else "report", tuple(sorted(where)))
            if key not in seen:
                seen[key] = rep
    total["events"]["race_reports"] = total["events"].get("race_reports", 0) + n
    for key, rep in seen.items():
        violations.append(dict(case=-1, variant="tsan", message="%s: %s" % (key[0], " / ".join(key[1])), detail=rep[:5000]))

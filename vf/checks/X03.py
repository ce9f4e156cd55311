"""Hostile use of the whole API under AddressSanitizer and UndefinedBehaviorSanitizer."""
import gc
import numpy as np
from vf import fr, geo, zoo, nb
from vf.geo import f32

PHASES = dict(quick=[dict(variant="asan", dirs=None, cases=16000, cap=170),
                     dict(variant="asan", dirs=zoo.EXTRA_DIRS, full="try", zoo="extra", cases=2500, cap=60)], thorough=[dict(variant="asan", dirs=None, cases=150000, cap=600), dict(variant="asan", dirs=zoo.EXTRA_DIRS, full="try", zoo="extra", cases=30000, cap=150)])
RULE = ("hostile calls of every analysis, finder, filter, neighbor list and box operation in the sanitized build: empty / single / coincident / on-face / far-away / denormal points, arrays of wrong lengths and shapes, neighbor lists "
        "made for other systems, extreme constructor parameters, repeated computes of changing sizes with results read late or after deletion, iterators abandoned and objects dropped in random order; every call has to return or "
        "raise a Python exception with no sanitizer report; results are read back in full; non-trivial = the call was accepted and computed something; distinct by (analysis, hostilities)")
REQUIRED = dict(calls=30000, accepted=20000, rejected=5000, arrays_read=40000)
ASSUMPTIONS = ["AddressSanitizer and UBSan (with float-cast-overflow) instrument freud's own extension modules, not numpy or libtbb; fresh heap memory is filled with 0x7f bytes in every check, so uninitialised reads are only seen when they change a result"]
HANG = 60


def pts(rng, ob, n, log):
    k = int(rng.integers(11))
    p = geo.points(rng, ob, n)
    if n == 0:
        return p
    if k == 0:
        p[:] = p[0]
        p = p[: max(1, min(n, 20))] if rng.random() < 0.5 else p
        p = np.resize(p, (n, 3))
        log.append("coincident")
    elif k == 1:
        s = float(rng.choice([10.0, 1e3, 1e5]))
        p = p * s
        log.append("far")
    elif k == 2:
        p = p * 1e-30
        log.append("tiny")
    elif k == 3:
        p = ob.abs(rng.choice([0.0, 0.5, 1.0], size=(n, 3)))
        if ob.is2D:
            p[:, 2] = 0
        log.append("faces")
    elif k == 4:
        p[rng.integers(0, n)] = [np.float32(1e7), 0, 0]
        log.append("outlier")
    elif k == 5 and ob.is2D:
        p[:, 2] = rng.normal(size=n)
        log.append("z in 2D")
    return f32(p)


def drain(mon, obj, e):
    for a in e.reads:
        try:
            x = getattr(obj, a)
        except Exception:
            mon.event("unreadable")
            continue
        touch(mon, x)


def touch(mon, x):
    if isinstance(x, fr.freud.locality.NeighborList):
        for c in ("query_point_indices", "point_indices", "distances", "vectors", "weights", "neighbor_counts", "segments"):
            touch(mon, getattr(x, c))
        len(x), x.num_points, x.num_query_points
    elif isinstance(x, np.ndarray):
        x.copy().tobytes()
        mon.event("arrays_read")
    elif isinstance(x, (list, tuple)):
        for y in x:
            touch(mon, y)


def attempt(mon, fn):
    mon.event("calls")
    mon.checks += 1
    try:
        r = fn()
    except Violation_:
        raise
    except Exception as ex:
        mon.event("rejected")
        return None, ex
    mon.event("accepted")
    return r, None


class Violation_(Exception):
    pass


def case(i, rng, mon):
    k = (i + i // 8) % 8
    if k < 5 or zoo.pool() is zoo.EXTRA:
        analysis(i, rng, mon)
    elif k == 5:
        lists(rng, mon)
    elif k == 6:
        finders(rng, mon)
    else:
        boxes(rng, mon)


EXTREME = dict(bins=[1, 2, 3, 50], r_max=[1e-6, 0.01, 1.3, 1.49, 3.0, 20.0], grid_size=[1, 2, 3, 17], output_size=[1, 2, 40], num_k_values=[2, 3], k_max=[1e-3, 1e3], width=[1, 2, 3, 31], sigma=[1e-6, 1e3], diameter=[1e-6, 10.0],
               x_max=[1e-3, 1.0], y_max=[1e-3, 1.4], z_max=[1e-3, 1.0], t_initial=[0.06, 1e6], n_replicates=[1, 9], l=[2, 20], k=[1, 12], T=[1, 2])


def analysis(i, rng, mon):
    e = zoo.pool()[(i // 8 * 5 + (i + i // 8) % 8) % len(zoo.pool())]
    P = e.params(rng)
    log = []
    for name in list(P):
        if name in EXTREME and rng.random() < 0.25:
            v = EXTREME[name][int(rng.integers(len(EXTREME[name])))]
            if name == "r_max" and v > 3 and e.name in ("GaussianDensity", "SphereVoxelization"):
                continue
            if name == "k_max" and v > 40 and e.name == "StaticStructureFactorDirect":      # every k vector up to it is stored
                v = 40.0
            P[name] = [v] * len(P[name]) if isinstance(P[name], (list, tuple)) else v
            log.append(name)
    mon.describe(analysis=e.name, params=P, hostile=log)
    obj, ex = attempt(mon, lambda: e.new(P))
    if ex is not None:
        return
    kept = []
    done = 0
    for step in range(int(rng.integers(1, 5))):
        try:
            f = e.frame(rng, P)
        except Exception:
            return
        hostile(rng, f, log, e)
        mon.describe(step=step, hostile=list(log), box=f.ob.params() if f.ob else None, periodic=str(f.ob.periodic) if f.ob else None, points=f.p, query=f.q, neighbors=str(f.neighbors)[:300], kw=f.kw,
                     arrays={k: v[1] for k, v in f.arrays.items()})
        system = None
        if e.needs_sys and rng.random() < 0.3 and not isinstance(obj, zoo._Holder):
            cls = fr.freud.locality
            system, ex = attempt(mon, lambda: cls.AABBQuery(f.ob.freud(), f.p) if rng.random() < 0.5 else cls.LinkCell(f.ob.freud(), f.p, float(f.ob.L[: f.ob.d].min()) * rng.uniform(0.15, 0.5)))
            if ex is not None:
                system = None
        r, ex = attempt(mon, lambda: e.call(obj, f, reset=bool(rng.random() < 0.5), system=system))
        if ex is None:
            done += 1
        if rng.random() < 0.7:
            drain(mon, obj, e)
        for a in e.reads:
            if rng.random() < 0.3:
                try:
                    kept.append(getattr(obj, a))
                except Exception:
                    pass
        if rng.random() < 0.2:
            repr(obj), str(obj)
    if rng.random() < 0.5:
        del obj
        gc.collect()
    for x in kept:
        touch(mon, x)
    if done:
        mon.sig(e.name, *sorted(set(log))[:2])


def hostile(rng, f, log, e):
    if f.ob is not None and f.p is not None:
        if rng.random() < 0.6:
            f.p = pts(rng, f.ob, len(f.p), log)
        if f.q is not None and rng.random() < 0.5:
            f.q = pts(rng, f.ob, len(f.q), log)
        if rng.random() < 0.15:
            f.ob.periodic = np.array([bool(rng.random() < 0.5) for _ in range(3)])
            log.append("nonperiodic")
        r = rng.random()
        if r < 0.08:
            f.p = f.p[:0]
            log.append("no points")
        elif r < 0.16:
            f.p = f.p[:1]
            log.append("one point")
        elif r < 0.22 and f.q is not None:
            f.q = f.q[:0]
            log.append("no query points")
        elif r < 0.28:
            f.q = None
    for name, v in f.arrays.items():
        if rng.random() < 0.12:
            a = v[1]
            c = int(rng.integers(5))
            if c == 0:
                v[1] = a[:-1]
            elif c == 1:
                v[1] = np.concatenate([a, a[:1]]) if len(a) else a
            elif c == 2:
                v[1] = a[:0]
            elif c == 3:
                v[1] = np.concatenate([a, a])
            else:
                v[1] = a.reshape(-1)
            log.append(name + " resized")
        elif rng.random() < 0.1 and v[1].size:
            a = np.array(v[1])
            c = int(rng.integers(4))
            x = rng.integers(0, a.size)
            if a.dtype.kind in "fc":
                a.flat[x] = [0, 1e30, -1e-38, 7][c]
                if c == 3:
                    a[...] = 0
            elif a.dtype.kind in "iu":
                a.flat[x] = [0, 1, 1000, 3][c]
            v[1] = a
            log.append(name + " odd")
    n = f.neighbors
    if isinstance(n, tuple) and rng.random() < 0.3 and len(n[1]):
        _, a, b, v, w = n
        c = int(rng.integers(5))
        if c == 0:
            b = b.copy()
            b[rng.integers(len(b))] = 10 ** 6
        elif c == 1:
            a = a.copy()
            a[-1] = a[-1] + 50
        elif c == 2:
            a, b, v, w = a[:0], b[:0], v[:0], None
        elif c == 3:
            v = v * 0
        else:
            a = a[::-1]
        f.neighbors = ("nlist", a, b, v, w)
        log.append("nlist %d" % c)
    elif isinstance(n, dict) and rng.random() < 0.3:
        n = dict(n)
        c = int(rng.integers(6))
        if c == 0:
            n["r_max"] = float(rng.choice([1e-8, 0.5, 1.5]) * f.ob.rlim())
        elif c == 1:
            n["num_neighbors"] = int(rng.choice([1, 2, 60, 500]))
        elif c == 2:
            n["r_min"] = float(rng.choice([0, 0.2, 5]))
        elif c == 3:
            n["mode"] = str(rng.choice(["ball", "nearest", "none", "what"]))
        elif c == 4:
            n["scale"], n["r_guess"] = float(rng.choice([1.01, 2.0, 10])), float(rng.choice([1e-3, 0.5]))
        f.neighbors = n
        log.append("query %d" % c)
    elif n is None and rng.random() < 0.1:
        f.neighbors = ("nlist", np.array([0]), np.array([0]), f32([[0.5, 0, 0]]), None)
    if f.q is not None and not e.qok:
        f.q = None


def lists(rng, mon):
    NL = fr.freud.locality.NeighborList
    n, m = int(rng.integers(1, 12)), int(rng.integers(1, 12))
    k = int(rng.choice([0, 1, 5, 30]))
    a = np.sort(rng.integers(0, n, size=k)).astype(np.uint32)
    b = rng.integers(0, m, size=k).astype(np.uint32)
    v = f32(rng.normal(size=(k, 3)))
    w = f32(rng.random(k))
    c = int(rng.integers(9))
    if c == 0 and k:
        b[rng.integers(k)] = m + int(rng.choice([0, 1, 2 ** 30]))
    elif c == 1 and k:
        a[-1] = n + int(rng.choice([0, 1, 2 ** 30]))
    elif c == 2:
        v = v[:-1]
    elif c == 3:
        w = np.concatenate([w, w])
    elif c == 4:
        a = a[::-1].copy()
    elif c == 5:
        v = f32(v * 0)
    mon.describe(n=n, m=m, i=a, j=b, v=v, w=w)
    nl, ex = attempt(mon, lambda: NL.from_arrays(n, m, a, b, v, weights=w) if rng.random() < 0.6 else NL.from_arrays(n, m, a, b, v))
    if ex is not None:
        return
    touch(mon, nl)
    views = [nl.distances, nl.vectors, nl.segments, nl[:], nl.point_indices]
    for _ in range(int(rng.integers(1, 6))):
        r = int(rng.integers(9))
        if r == 0:
            mask = rng.random(len(nl)) < rng.choice([0, 0.5, 1])
            if rng.random() < 0.3:
                mask = mask[:-1] if rng.random() < 0.5 else np.concatenate([mask, [True, False]])
            attempt(mon, lambda: nl.filter(mask))
        elif r == 1:
            attempt(mon, lambda: nl.filter_r(float(rng.choice([0, 0.5, 3])), float(rng.choice([0, 0.2]))))
        elif r == 2:
            attempt(mon, lambda: nl.find_first_index(int(rng.choice([0, 1, n - 1, n, n + 5, 2 ** 31]))))
        elif r == 3:
            attempt(mon, lambda: nl[int(rng.integers(-3, len(nl) + 3))])
        elif r == 4:
            attempt(mon, lambda: nl.sort(by_distance=bool(rng.random() < 0.5)))
        elif r == 5:
            c2 = nl.copy() if rng.random() < 0.5 else NL()
            views.append(c2)
        elif r == 6:
            views += [nl.neighbor_counts, nl.segments]
        elif r == 7:
            box = fr.freud.box.Box.cube(10)
            pts_ = f32(rng.random((int(rng.choice([n, m, 1])), 3)))
            attempt(mon, lambda: touch(mon, fr.freud.cluster.Cluster().compute((box, pts_), neighbors=nl).cluster_idx))
            attempt(mon, lambda: touch(mon, fr.freud.locality.FilterSANN().compute((box, pts_), nl).filtered_nlist))
            attempt(mon, lambda: touch(mon, fr.freud.locality.FilterRAD().compute((box, pts_), nl).filtered_nlist))
        else:
            attempt(mon, lambda: touch(mon, NL.all_pairs((fr.freud.box.Box.cube(5), f32(rng.random((n, 3)))), f32(rng.random((m, 3))) if rng.random() < 0.8 else None, exclude_ii=bool(rng.random() < 0.5))))
    if rng.random() < 0.5:
        del nl
        gc.collect()
    for x in views:
        attempt(mon, lambda: touch(mon, x))
    mon.sig("NeighborList", c, k > 0)


def finders(rng, mon):
    L = fr.freud.locality
    log = []
    ob = geo.random_box(rng, None, lo=1.0, hi=15, maxtilt=0.9)
    if rng.random() < 0.2:
        ob.periodic = np.array([bool(rng.random() < 0.5) for _ in range(3)])
    p = pts(rng, ob, int(rng.choice([1, 2, 5, 40])), log)
    q = pts(rng, ob, int(rng.choice([0, 1, 7, 30])), log)
    kind = ("AABB", "LinkCell", "raw")[int(rng.integers(3))]
    cw = float(ob.L[: ob.d].min()) * float(rng.choice([0.15, 0.3, 0.49, 0.6, 2.0]))
    mon.describe(box=ob.params(), points=p, query=q, kind=kind, cell_width=cw, hostile=log)
    mk = dict(AABB=lambda: L.AABBQuery(ob.freud(), p), LinkCell=lambda: L.LinkCell(ob.freud(), p, cw), raw=lambda: L.NeighborQuery.from_system((ob.freud(), p)))[kind]
    nq, ex = attempt(mon, mk)
    if ex is not None:
        return
    kept = []
    for _ in range(int(rng.integers(1, 5))):
        args = {}
        if rng.random() < 0.6:
            args["r_max"] = float(rng.choice([1e-6, 0.3, 0.9, 0.999, 1.001, 3]) * ob.rlim())
        if rng.random() < 0.5 or not args:
            args["num_neighbors"] = int(rng.choice([0, 1, 3, 45, 100]))
        if rng.random() < 0.3:
            args["exclude_ii"] = bool(rng.random() < 0.5)
        if rng.random() < 0.2:
            args["r_min"] = float(rng.choice([0.0, 0.1, 2.0]))
        if rng.random() < 0.2:
            args["mode"] = str(rng.choice(["ball", "nearest"]))
        if rng.random() < 0.2:
            args["r_guess"] = float(rng.choice([1e-3, 0.2, 1.0]) * ob.rlim())
        if rng.random() < 0.2:
            args["scale"] = float(rng.choice([1.05, 1.5, 4.0]))
        mon.describe(args=args)
        if rng.random() < 0.4 and len(p):
            args["exclude_ii"] = True
        res, ex = attempt(mon, lambda: nq.query(q if rng.random() < 0.7 else nq.points, args))
        if ex is not None:
            continue
        r = int(rng.integers(4))
        if r == 0:
            it = iter(res)
            for _ in range(int(rng.integers(0, 10))):
                _, ex = attempt(mon, lambda: next(it, None))
                if ex is not None:
                    break
            kept.append(it)
        elif r == 1:
            nl, ex = attempt(mon, lambda: res.toNeighborList(sort_by_distance=bool(rng.random() < 0.5)))
            if ex is None:
                touch(mon, nl)
                kept.append(nl)
        elif r == 2:
            attempt(mon, lambda: list(res))
            attempt(mon, lambda: list(res))
        if rng.random() < 0.2:
            kept.append(res)
    if rng.random() < 0.5:
        del nq
        gc.collect()
    for x in kept:
        if isinstance(x, L.NeighborList):
            touch(mon, x)
        elif hasattr(x, "__next__"):
            attempt(mon, lambda: list(x))
        else:
            attempt(mon, lambda: touch(mon, x.toNeighborList()))
    mon.sig("finder", kind, len(p), len(q), *sorted(set(log))[:1])


def boxes(rng, mon):
    log = []
    ob = geo.random_box(rng, None, lo=float(rng.choice([1e-3, 1.0, 1e3])), hi=float(rng.choice([2e3, 1e4])), maxtilt=0.9)
    box = ob.freud()
    n = int(rng.choice([0, 1, 2, 30]))
    p = pts(rng, ob, n, log)
    q = pts(rng, ob, int(rng.choice([0, 1, n, 7])), log)
    im = rng.integers(-5, 6, size=(int(rng.choice([n, n, 1, n + 1])), 3))
    w = f32(rng.random(int(rng.choice([n, n, n + 1, 0]))))
    mon.describe(box=ob.params(), points=p, query=q, images=im, masses=w)
    out = np.zeros((int(rng.choice([n, n + 1])), 3), np.float32)
    for fn in (lambda: box.wrap(p), lambda: box.wrap(p, out=out), lambda: box.unwrap(p, im), lambda: box.unwrap(p, im, out=out), lambda: box.get_images(p), lambda: box.make_fractional(p), lambda: box.make_absolute(p * 1e-3),
               lambda: box.compute_distances(p, q), lambda: box.compute_all_distances(p, q), lambda: box.contains(p), lambda: box.center_of_mass(p, w), lambda: box.center(p, w), lambda: box.center_of_mass(p),
               lambda: box.center(p), lambda: box.get_box_vector(int(rng.integers(-2, 5))), lambda: box.to_matrix(), lambda: box * float(rng.choice([0.5, 2])), lambda: fr.freud.box.Box.from_box(p[:1])):
        r, ex = attempt(mon, fn)
        if ex is None:
            touch(mon, r)
    mon.sig("box", n, len(q), *sorted(set(log))[:1])
    if rng.random() < 0.3:
        R = fr.freud.util
        mon.event("calls")

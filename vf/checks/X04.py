"""Inputs stay untouched, layouts do not matter, results outlive what produced them."""
import gc
import numpy as np
from vf import fr, geo, zoo, nb
from vf.geo import f32
from vf.monitor import Violation

PHASES = dict(quick=[dict(variant="rel", dirs=zoo.DIRS, cases=8000, cap=110), dict(variant="rel", dirs=zoo.EXTRA_DIRS, full="try", zoo="extra", cases=4000, cap=50)], thorough=[dict(variant="rel", dirs=zoo.DIRS, cases=300000, cap=600), dict(variant="rel", dirs=zoo.EXTRA_DIRS, full="try", zoo="extra", cases=100000, cap=200)])
RULE = ("every analysis, query, filter and box operation on random frames, each argument passed in a random representation (lists, tuples, other dtypes, Fortran order, strided, reversed, transposed, byte-swapped and "
        "read-only views, duck-typed systems, box as list/dict); results bit-identical to contiguous inputs, arguments byte-identical afterwards; raw result arrays and neighbor lists compared with snapshots after the "
        "object computed again and was collected; finders, lazy query results and iterators compared after their inputs were overwritten; non-trivial = at least one argument in an unusual layout; "
        "distinct by (analysis, layouts)")
REQUIRED = dict(layouts=10000, arguments_compared=10000, results_outlived=4000, finders_outlived=400, iterators_outlived=250)
ASSUMPTIONS = ["one thread, so that sums are reproducible bit for bit"]
THREADS = (1,)


class Sys:
    def __init__(self, box, points):
        self.box, self.points = box, points


def layout(rng, a, log):
    """The same values in another representation."""
    a = np.asarray(a)
    r = int(rng.integers(13))
    if r == 0:
        log.append("list")
        return a.tolist()
    if r == 1:
        log.append("tuple")
        return tuple(map(tuple, a.tolist())) if a.ndim == 2 else tuple(a.tolist())
    if r == 2:
        b = np.asfortranarray(a)
        log.append("F")
    elif r == 3:
        big = np.full((2 * a.shape[0],) + a.shape[1:], 77, a.dtype)
        b = big[::2]
        b[...] = a
        log.append("strided")
    elif r == 4:
        b = a[::-1].copy()[::-1]
        log.append("reversed")
    elif r == 5 and a.ndim > 1:
        big = np.full(a.shape[:-1] + (a.shape[-1] + 2,), 55, a.dtype)
        b = big[..., 1:-1]
        b[...] = a
        log.append("columns")
    elif r == 6:
        b = a.astype(a.dtype.newbyteorder())
        log.append("swapped")
    elif r in (7, 8):
        if a.dtype == np.float32:
            b = a.astype(np.float64)
        elif a.dtype.kind in "ui":
            b = a.astype(np.int64)
        elif a.dtype == np.float64 and rng.random() < 0.3:
            b = a.astype(np.longdouble)
        else:
            b = a.copy()
        if r == 8:
            b = np.asfortranarray(b)
        log.append(str(b.dtype))
    elif r == 9:
        b = a.copy()
        b.setflags(write=False)
        log.append("readonly")
    elif r == 10:
        raw = np.zeros(a.nbytes + 1, np.uint8)
        b = raw[1:].view(np.uint8)[: a.nbytes].view(a.dtype).reshape(a.shape) if a.nbytes else a.copy()
        b[...] = a
        log.append("unaligned")
    elif r == 11 and a.size and np.all(a == np.round(a)) and a.dtype.kind == "f":
        b = a.astype(np.int32)
        log.append("int")
    else:
        b = a.copy()
        log.append("plain")
    if rng.random() < 0.2:
        b.setflags(write=False)
    return b


def case(i, rng, mon):
    e = zoo.pool()[i % len(zoo.pool())]
    P = e.params(rng)
    f = e.frame(rng, P, exact=bool(rng.random() < 0.3))
    mon.describe(analysis=e.name, params=P, box=f.ob.params(), points=f.p, query=f.q, neighbors=str(f.neighbors)[:200], kw=f.kw, arrays={k: v[1] for k, v in f.arrays.items()})
    obj = e.new(P)
    n0 = dict(f.neighbors) if isinstance(f.neighbors, dict) else None
    try:
        e.call(obj, f)
        if n0 is not None:
            mon.check(f.neighbors == n0, "%s modified the neighbors dict" % e.name, before=n0, after=f.neighbors)
    except Violation:
        raise
    except Exception as ex:
        mon.event("rejected_frames")
        mon.raises(type(ex), lambda: e.call(e.new(P), f, conv=lambda a: layout(rng, a, [])), "same rejection for another layout")
        return
    want = e.read(obj)
    # 1. other layouts of the same arguments
    log, keep = [], []

    def conv(a):
        b = layout(rng, a, log)
        if isinstance(b, np.ndarray):
            keep.append((b, b.copy(), b.tobytes()))
        else:
            keep.append((b, None, repr(b)))
        return b
    o2 = e.new(P)
    system = None
    box = f.ob.freud()
    holder = isinstance(o2, zoo._Holder)
    skind = "tuple"
    if e.needs_sys:
        pts = conv(f.p)
        system = (box, pts)
        if not holder:
            k = int(rng.integers(5))
            if k == 0:
                system, skind = [box, pts], "list"
            elif k == 1:
                system, skind = Sys(box, pts), "attributes"
            elif k == 2 and f.ob.periodic.all():
                system, skind = (dict(Lx=box.Lx, Ly=box.Ly, Lz=box.Lz, xy=box.xy, xz=box.xz, yz=box.yz, dimensions=box.dimensions), pts), "dictbox"
            elif k == 3 and f.ob.ortho and not f.ob.is2D and f.ob.periodic.all():
                system, skind = ([box.Lx, box.Ly, box.Lz], pts), "listbox"
    bb = repr(box) + repr(box.periodic)
    log.append(skind)
    mon.describe(layouts=log)
    log_order = log
    nl = None
    if isinstance(f.neighbors, tuple):
        nl = f.nlist(conv)
        cols = zoo.as_array(nl)
    elif isinstance(f.neighbors, dict):
        nl = dict(f.neighbors)
    e.call(o2, f, conv=conv, system=system, neighbors=nl)
    got = e.read(o2)
    zoo.same(mon, e, got, want, "arguments as %s" % ",".join(log), exact=True)
    for b, c, raw in keep:
        if c is None:
            mon.check(repr(b) == raw, "%s modified a list passed to it" % e.name)
        else:
            mon.check(b.tobytes() == raw, "%s modified an array passed to it" % e.name, before=c, after=b)
        mon.event("arguments_compared")
    if isinstance(f.neighbors, dict):
        mon.check(nl == f.neighbors, "%s modified the neighbors dict" % e.name, before=f.neighbors, after=nl)
    elif nl is not None:
        mon.check(np.array_equal(zoo.as_array(nl), cols), "%s modified the neighbor list" % e.name)
    mon.check(repr(box) + repr(box.periodic) == bb, "%s modified the box" % e.name)
    mon.event("layouts", len(log))
    # 2. results outlive the object and its next computes
    raw, snap = {}, {}
    for a in e.reads:
        x = getattr(o2, a)
        if isinstance(x, fr.freud.locality.NeighborList):
            raw[a + ".list"] = x
            snap[a + ".list"] = zoo.as_array(x)
            for c in ("query_point_indices", "point_indices", "distances", "vectors", "weights", "neighbor_counts", "segments"):
                raw[a + "." + c] = getattr(x, c)
                snap[a + "." + c] = np.array(raw[a + "." + c])
        elif isinstance(x, np.ndarray):
            raw[a] = x
            snap[a] = x.copy()
        elif isinstance(x, list):
            raw[a] = x
            snap[a] = zoo.as_array(x)
    k = int(rng.integers(4))
    like = f if rng.random() < 0.5 else None
    if not holder:
        for n in range(k):
            try:
                # an object that keeps accumulating updates its arrays in place: only a new start leaves the old ones alone
                e.call(o2, e.frame(rng, P, like=like, dim=f.ob.d), reset=True if n == 0 or rng.random() < 0.6 else False)
                if rng.random() < 0.5:
                    e.read(o2)
            except Exception:
                break
    dele = rng.random() < 0.7
    if dele:
        del o2, system, nl, keep, box
        gc.collect()
        junk = [np.full(64, 9e9, np.float32) for _ in range(20)]
        e.call(e.new(P), f)
    for a in raw:
        x = zoo.as_array(raw[a])
        mon.check(x.shape == np.asarray(snap[a]).shape and np.array_equal(x, snap[a], equal_nan=x.dtype.kind in "fc"),
                  "%s.%s changed after %d more computes%s" % (e.name, a, k, " and deleting the object" if dele else ""), now=x, before=snap[a])
        mon.event("results_outlived")
    mon.sig(e.name, skind, *sorted(set(log))[:3])
    if i % 5 == 0:
        finders(rng, mon)


def finders(rng, mon):
    L = fr.freud.locality
    ob, p, q, tol, mode = nb.rand_system(rng, nmax=60, qmax=30, separate=True, exact=False)
    args = dict(r_max=float(np.float32(ob.rlim() * rng.uniform(0.3, 0.9)))) if rng.random() < 0.7 or len(p) < 3 else dict(num_neighbors=2)
    mon.describe(box=ob.params(), points=p, query_points=q, args=args)
    box = ob.freud()
    pp, qq = p.copy(), q.copy()

    def make(b, x):
        if kind == "LinkCell":
            return L.LinkCell(b, x, cell_width=float(ob.planes()[: ob.d].min()) * 0.45)
        return L.AABBQuery(b, x) if kind == "AABB" else L.NeighborQuery.from_system((b, x))
    kind = ("AABB", "LinkCell", "raw")[int(rng.integers(3))]
    ref = zoo.canon(make(ob.freud(), p).query(q, args).toNeighborList())
    nq = make(box, pp)
    early = rng.random() < 0.5
    res = nq.query(qq, args) if early else None
    # the caller reuses its buffers
    pp[:] = 1e3
    box.Lx, box.Ly = box.Lx * 3, box.Ly * 2
    mon.check(np.array_equal(nq.points, p), "points of a finder changed with the array it was built from")
    mon.close([nq.box.Lx, nq.box.Ly], ob.L[:2], "box of a finder changed with the box it was built from", rtol=1e-6)
    if res is None:
        res = nq.query(qq, args)
    qq[:] = -1e3
    if rng.random() < 0.6:
        a = dict(args)
        args.clear()
        args["r_max"] = 1e-3
        del nq
        gc.collect()
        args = a
    if rng.random() < 0.5:
        nl = res.toNeighborList()
        del res
        gc.collect()
        got = zoo.canon(nl)
        mon.check(got.shape == ref.shape and np.allclose(got, ref, atol=1e-6), "a lazy query result changed with its inputs", got=got, want=ref)
        mon.event("finders_outlived")
    else:
        it = iter(res)
        out = []
        for n, b in enumerate(it):
            out.append(b)
            if n == 0:
                del res
                gc.collect()
                junk = [np.full((len(p), 3), 9e9, np.float32) for _ in range(4)]
        got = np.array(out, float).reshape(-1, 3)
        mon.check(len(got) == len(ref), "bonds from an iterator: %d, expected %d" % (len(got), len(ref)))
        if len(got):
            got = got[np.lexsort(np.round(got.T[::-1], 5))]
            mon.check(np.allclose(got, ref[:, :3], atol=1e-6), "an iterator over a query changed with its inputs", got=got, want=ref)
        mon.event("iterators_outlived")
    # a copy of a neighbor list is independent of the original
    nl = make(ob.freud(), p).query(q, args).toNeighborList()
    c = nl.copy()
    before = zoo.as_array(c)
    if len(nl):
        nl.filter(rng.random(len(nl)) < 0.5)
    mon.check(np.array_equal(zoo.as_array(c), before), "filtering a neighbor list changed its copy")

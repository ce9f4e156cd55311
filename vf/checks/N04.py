"""Histories of queries, partial and interleaved iteration, and equivalent neighbor specifications."""
import sys, types
import numpy as np
from vf import fr, geo, nb
from vf.geo import f32

DIRS = ["cluster", "density", "environment", "order"]
PHASES = dict(quick=[dict(variant="rel", dirs=DIRS, cases=5000, cap=90)], thorough=[dict(variant="rel", dirs=DIRS, cases=200000, cap=850)])
RULE = ("(a) one finder, 2-5 open query results, random schedules of partial iteration, restart, conversion, further queries and overwriting of the caller's arrays, every finished iteration "
        "compared with a fresh finder's answer; (b) analyses given the same neighbors as defaults, argument dict, list, other finder or other system-like object; non-trivial = at least "
        "two interleaved iterations with bonds, or an analysis compared on a system with bonds; distinct by (kind, finder, history pattern or analysis and specification pair)")
REQUIRED = dict(iterations_finished=3000, interleavings=2000, equivalences=2000)
ASSUMPTIONS = ["different finders are compared on cutoffs at which no pair is within rounding of the limit"]


def gap_radius(rng, ob, D, tol, frac=None):
    """A radius below the limit that no pair distance is close to."""
    d = np.sort(np.concatenate([D.ravel(), [0.0, ob.rlim() * 0.97]]))
    d = d[d <= ob.rlim() * 0.97]
    g = np.diff(d)
    ok = np.flatnonzero(g > 20 * tol + 1e-5)
    if len(ok) == 0:
        return None
    k = ok[int(rng.integers(len(ok)))]
    return float(np.float32((d[k] + d[k + 1]) / 2))


def histories(rng, mon):
    ob, p, q, tol, mode = nb.rand_system(rng, nmax=60, qmax=15, separate=False)
    box = ob.freud()
    p0 = p.copy()
    kind, fin = nb.finder(rng, box, p, kinds=("AABB", "LinkCell", "LinkCellW", "CellQuery", "CellQuery", "raw"), ob=ob)
    cw = float(fin.cell_width) if kind.startswith("LinkCell") else None
    L = fr.freud.locality

    def fresh():
        b = ob.freud()
        if kind == "AABB":
            return L.AABBQuery(b, p0)
        if kind == "CellQuery":
            return L.CellQuery(b, p0)
        if kind == "raw":
            return L.NeighborQuery.from_system((b, p0))
        return L.LinkCell(b, p0, cell_width=cw)

    mon.describe(box=ob.params(), points=p0, finder=kind, mode=mode)
    queries = []
    for k in range(int(rng.integers(2, 5))):
        m = geo.nonzero_n(rng, 12)
        qq = geo.points(rng, ob, m) if rng.random() < 0.5 else p0[rng.integers(0, len(p0), size=m)].copy()
        if rng.random() < 0.3:
            qq = p0.copy()
        if mode == "exact":
            qq = geo.exact_points(rng, ob, m, 0.25)
        r = float(np.float32(ob.rlim() * rng.uniform(0.1, 0.97)))
        if kind == "CellQuery" or rng.random() < 0.6:
            args = dict(r_max=r)
        else:
            inside = int(np.median((geo.pair_table(ob, qq, p0)[1] < ob.rlim()).sum(1)))
            args = dict(num_neighbors=int(rng.integers(1, max(2, min(inside, 12) + 1))))
            if rng.random() < 0.4:
                args["r_max"] = r
            if kind == "raw" or kind == "AABB":
                if rng.random() < 0.4:
                    args["r_guess"] = r * 0.3
        if rng.random() < 0.4:
            args["exclude_ii"] = bool(rng.random() < 0.5)
        if rng.random() < 0.3 and "r_max" in args:
            args["r_min"] = r * 0.3
        keep = qq.copy()
        given = dict(args)
        res = fin.query(qq, args)
        if rng.random() < 0.5:
            qq[:] = 0                   # the result has to keep its own copy of its inputs
            args.clear()
        ref = fresh().query(keep, given).toNeighborList()
        i_, j_, d_, v_, w_ = nb.nlist_cols(ref)
        want = sorted(zip(i_.tolist(), j_.tolist(), np.float32(d_).tolist()))
        queries.append(dict(res=res, want=want, args=given, rows=np.column_stack([i_, j_, d_, w_, v_]) if len(i_) else np.zeros((0, 7))))
    if rng.random() < 0.5:
        p[:] = 0                        # so has the finder
    live = []
    hist = []
    inter = 0
    last = None

    def compare(qi, bonds, what):
        got = sorted((int(a), int(b), float(np.float32(d))) for a, b, d in bonds)
        gs, ws = (set(got), set(queries[qi]["want"])) if got != queries[qi]["want"] else (set(), set())
        mon.check(got == queries[qi]["want"], what + " differs from a fresh query of a fresh finder", query=queries[qi]["args"],
                  n_got=len(got), n_want=len(queries[qi]["want"]), history=hist[-12:], got=sorted(gs - ws)[:5], missing=sorted(ws - gs)[:5])
        mon.event("iterations_finished")

    for step in range(int(rng.integers(6, 24))):
        op = rng.random()
        qi = int(rng.integers(len(queries)))
        if op < 0.25 or not live:
            live.append((qi, iter(queries[qi]["res"]), []))
            hist.append("open%d" % qi)
        elif op < 0.75:
            k = int(rng.integers(len(live)))
            qi, it, got = live[k]
            if last is not None and last is not it:
                inter += 1
            last = it
            done = False
            for _ in range(int(rng.choice([1, 2, 5, 30]))):
                try:
                    got.append(next(it))
                except StopIteration:
                    done = True
                    break
            hist.append("next%d" % qi)
            pre = [(int(a), int(b), float(np.float32(d))) for a, b, d in got]
            mon.check(len(set(pre)) == len(pre) or len(set(queries[qi]["want"])) < len(queries[qi]["want"]), "an iteration returned a bond twice", history=hist[-12:])
            if done:
                compare(qi, got, "interleaved iteration")
                live.pop(k)
        elif op < 0.9:
            s = bool(rng.random() < 0.5)
            nl = queries[qi]["res"].toNeighborList(s)
            i_, j_, d_, v_, w_ = nb.nlist_cols(nl)
            r = np.column_stack([i_, j_, d_, w_, v_]) if len(i_) else np.zeros((0, 7))
            want = queries[qi]["rows"]
            if s and len(want):
                r = r[np.lexsort((r[:, 1], r[:, 0]))]
            if len(np.unique(want[:, :2], axis=0)) == len(want):
                mon.equal(r, want, "toNeighborList differs from a fresh query", history=hist[-12:], query=queries[qi]["args"])
            hist.append("list%d" % qi)
            mon.event("conversions")
        else:
            compare(qi, list(queries[qi]["res"]), "list(result)")
            hist.append("all%d" % qi)
    order = rng.permutation(len(live))
    for k in order:
        qi, it, got = live[k]
        got.extend(it)
        compare(qi, got, "resumed iteration")
    mon.equal(fin.points, p0, "points of the finder")
    mon.event("interleavings", inter)
    if inter and sum(len(x["want"]) for x in queries):
        mon.sig("history", kind, ob.key(), "".join(h[0] for h in hist[:8]))


def analyses(rng, ob, p, q, r):
    F = fr.freud
    v = rng.normal(size=len(p)) + 1j * rng.normal(size=len(p))
    qv = v if q is None else rng.normal(size=len(q)) + 1j * rng.normal(size=len(q))
    o = geo.random_quats(rng, len(p), special=False)
    qo = o if q is None else geo.random_quats(rng, len(q), special=False)
    kw = {} if q is None else dict(query_points=q)
    out = [
        ("RDF", lambda s, n: np.append(*(lambda c: (c.bin_counts, c.n_r))(F.density.RDF(1, r).compute(s, neighbors=n, **kw))), dict(r_max=r)),
        ("CorrelationFunction", lambda s, n: F.density.CorrelationFunction(1, r).compute(s, v, query_values=qv, neighbors=n, **kw).correlation, dict(r_max=r)),
        ("LocalDensity", lambda s, n: F.density.LocalDensity(r * 0.8, r * 0.4).compute(s, neighbors=n, **kw).num_neighbors, dict(r_max=r)),
        ("AngularSeparationNeighbor", lambda s, n: F.environment.AngularSeparationNeighbor().compute(s, o, query_orientations=None if q is None else qo, neighbors=n, **kw).angles,
         None),
        ("LocalBondProjection", lambda s, n: F.environment.LocalBondProjection().compute(s, o, np.array([[1., 0, 0], [0, .6, .8]]), neighbors=n, **kw).projections, None),
        ("BondOrder", lambda s, n: [F.environment.BondOrder((2, 2), "bod").compute(s, o, query_orientations=qo, neighbors=n, **kw).bin_counts.sum()], None),
    ]
    if q is None:
        out.append(("Cluster", lambda s, n: canon(F.cluster.Cluster().compute(s, neighbors=n).cluster_idx), None))
        if ob.is2D:
            out.append(("Hexatic", lambda s, n: F.order.Hexatic(6).compute(s, neighbors=n).particle_order, dict(num_neighbors=6)))
    else:
        out.append(("Interface", lambda s, n: (lambda c: np.concatenate([c.point_ids, c.query_point_ids]))(F.interface.Interface().compute(s, q, neighbors=n)), None))
    return out


def canon(idx):
    first = {}
    return np.array([first.setdefault(x, len(first)) for x in np.asarray(idx).tolist()])


def equivalences(rng, mon):
    L = fr.freud.locality
    ob, p, q, tol, mode = nb.rand_system(rng, nmax=60, qmax=30, exact=False)
    box = ob.freud()
    qq = p if q is None else q
    V, D = geo.pair_table(ob, qq, p)
    r = gap_radius(rng, ob, D, tol)
    if r is None or r < 0.01:
        return
    table = analyses(rng, ob, p, q, r)
    name, fn, default = table[int(rng.integers(len(table)))]
    mon.describe(box=ob.params(), points=p, query_points=q, r_max=r, analysis=name)
    if name in ("BondOrder", "Hexatic", "LocalBondProjection") and (D[~np.eye(*D.shape, dtype=bool)] < 1e-3).any():
        return          # zero-length bonds have no direction
    # bond directions exactly between two images, and defaults beyond the box, are not comparable
    if ob.near_face(p.astype(float)[None] - qq.astype(float)[:, None], 20 * tol).any():
        return
    excl = q is None
    spec = None
    if default is not None and rng.random() < 0.3:
        if "num_neighbors" in default:
            S = np.sort(D + np.where(np.eye(len(p)), 1e9, 0), axis=1)
            if S.shape[1] < 8 or not (S[:, 6] - S[:, 5] > 20 * tol).all() or not (S[:, 5] < ob.rlim() * 0.98).all():
                return
        spec = default
        base = fn((box, p), None)
        what = "default"
    else:
        if rng.random() < 0.6 or len(p) < 6:
            spec = dict(r_max=r)
            if rng.random() < 0.3:
                spec["r_min"] = float(np.float32(r * 1e-3)) if D[D > 0].size and D[D > 0].min() > r * 2e-3 else 0.0
            kinds_ok = True
        else:
            k = int(rng.integers(1, 5))
            S = np.sort(D + np.where(np.eye(*D.shape), 1e9 if excl else 0, 0), axis=1)
            if S.shape[1] < k + 2 or not (S[:, k] - S[:, k - 1] > 20 * tol).all() or not (S[:, k - 1] < ob.rlim() * 0.98).all():
                return
            spec = dict(num_neighbors=k)
        if rng.random() < 0.4:
            excl = bool(rng.random() < 0.5) if name not in ("BondOrder", "Hexatic", "LocalBondProjection") else True
            spec["exclude_ii"] = excl
        if name in ("BondOrder", "Hexatic", "LocalBondProjection") and q is not None and (D < 1e-3).any():
            return
        base = fn((box, p), dict(spec))
        what = str(spec)
    alts = []
    full = dict(spec)
    full.setdefault("exclude_ii", q is None)
    alts.append(("explicit arguments", lambda: fn((box, p), full)))
    alts.append(("explicit mode", lambda: fn((box, p), dict(full, mode="ball" if "num_neighbors" not in full else "nearest"))))
    alts.append(("AABBQuery", lambda: fn(L.AABBQuery(box, p), dict(spec))))
    alts.append(("raw", lambda: fn(L.NeighborQuery.from_system((box, p)), dict(spec))))
    h = ob.planes()[: ob.d].min()
    alts.append(("LinkCell", lambda: fn(L.LinkCell(box, p, cell_width=h * 0.3), dict(spec))))
    if "num_neighbors" not in spec and ob.volume / spec["r_max"] ** ob.d < 3e6:      # a grid of that many cells
        alts.append(("CellQuery", lambda: fn(L.CellQuery(box, p), dict(spec))))
        alts.append(("list from CellQuery", lambda: fn((box, p), L.CellQuery(box, p).query(qq, full).toNeighborList())))
    alts.append(("list", lambda: fn((box, p), L.AABBQuery(box, p).query(qq, full).toNeighborList())))
    alts.append(("list from LinkCell", lambda: fn((box, p), L.LinkCell(box, p, cell_width=h * 0.4).query(qq, full).toNeighborList())))
    alts.append(("list with another finder", lambda: fn(L.LinkCell(box, p, cell_width=h * 0.4), L.AABBQuery(box, p).query(qq, full).toNeighborList())))
    shared = L.AABBQuery(box, p)
    def busy():
        it = iter(shared.query(qq, dict(r_max=r)))
        next(it, None)
        x = fn(shared, dict(spec))
        next(it, None)
        return x
    alts.append(("shared, half-iterated finder", busy))
    if "exclude_ii" not in spec and q is None:
        # points given again as query points: the defaults include self pairs, so they have to be excluded by hand
        mon.event("default_exclusion")
    for k in rng.permutation(len(alts))[:4]:
        nm, f = alts[k]
        got = f()
        mon.close(got, base, "%s with %s as %s" % (name, what, nm), atol=2e-3 * (1 if name != "RDF" else 0) if nm.startswith(("LinkCell", "Cell")) or "LinkCell" in nm or "CellQuery" in nm
                  else 1e-4, rtol=1e-4)
        mon.event("equivalences")
        mon.sig("spec", name, nm, "knn" if "num_neighbors" in spec else "ball", q is not None, ob.d)


def systems(rng, mon):
    """System-like objects of other libraries carry the same box and points."""
    L = fr.freud.locality
    ob, p, q, tol, mode = nb.rand_system(rng, nmax=30, separate=False)
    box = ob.freud()
    ns = types.SimpleNamespace

    def klass(path):
        m, n = path.rsplit(".", 1)
        return type(n, (), {"__module__": m})

    def inst(path, **kw):
        o = klass(path)()
        o.__dict__.update(kw)
        return o
    Lx, Ly, Lz = ob.L
    six = [Lx, Ly, Lz, ob.xy, ob.xz, ob.yz]
    six2 = [Lx, Ly, 1.0, ob.xy, 0.3, 0.2] if ob.is2D else six
    M = np.zeros((3, 4))
    M[:, :3] = ob.M
    if ob.is2D:
        M[2, 2] = 1.0
    M[:, 3] = ob.origin
    cands = [
        ("tuple", (box, p)), ("list", [box, p]), ("points as list", (box, p.tolist())), ("box as dict", (box.to_dict(), p)),
        ("attributes", ns(box=box, points=p)), ("NeighborQuery", L.AABBQuery(box, p)),
        ("garnett 0.7", inst("garnett.trajectory.Frame", box=box, position=p)),
        ("garnett 0.6", inst("garnett.trajectory.Frame", box=box, positions=p)),
        ("HOOMD 2", ns(box=ns(Lx=Lx, Ly=Ly, Lz=1.0 if ob.is2D else Lz, xy=ob.xy, xz=ob.xz, yz=ob.yz, dimensions=ob.d), particles=ns(position=p))),
        ("ovito", inst("ovito.data.DataCollection", cell=ns(matrix=M, is2D=ob.is2D), particles=ns(positions=p))),
        ("PyScript", inst("PyScript.DataCollection", cell=ns(matrix=M, is2D=ob.is2D), particles=ns(positions=p))),
    ]
    for path in ("gsd.hoomd.Frame", "gsd.hoomd.Snapshot", "hoomd.snapshot.Snapshot"):
        cands.append((path, inst(path, configuration=ns(box=six2, dimensions=ob.d), particles=ns(position=p))))
    if not ob.is2D:
        for path in ("MDAnalysis.coordinates.base.Timestep", "MDAnalysis.coordinates.timestep.Timestep"):
            cands.append((path, inst(path, triclinic_dimensions=ob.M.T, positions=p)))
    name, s = cands[int(rng.integers(len(cands)))]
    mon.describe(box=ob.params(), system=name, points=p)
    nq = L.NeighborQuery.from_system(s)
    b = nq.box
    mon.close([b.Lx, b.Ly, b.Lz, b.xy, b.xz, b.yz], six, "box of a %s system" % name, atol=1e-5 * Lx, rtol=1e-5)
    mon.check(b.is2D == ob.is2D, "dimension of a %s system" % name)
    mon.equal(nq.points, p, "points of a %s system" % name)
    if name == "NeighborQuery":
        mon.check(nq is s, "a NeighborQuery is used as it is")
    fin = L.AABBQuery.from_system(s)
    r = float(np.float32(ob.rlim() * 0.5))
    a = fin.query(p, dict(r_max=r)).toNeighborList()
    want = L.AABBQuery(b, p).query(p, dict(r_max=r)).toNeighborList()
    mon.equal(a[:], want[:], "neighbors in a %s system" % name)
    mon.event("systems")
    mon.sig("system", name, ob.key())


def case(i, rng, mon):
    k = rng.random()
    if k < 0.45:
        histories(rng, mon)
    elif k < 0.9:
        equivalences(rng, mon)
    else:
        systems(rng, mon)

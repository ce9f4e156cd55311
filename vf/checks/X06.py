"""Every request outside an operation's domain has to be rejected."""
import numpy as np
from vf import fr, geo, zoo, nb
from vf.geo import f32, OBox

PHASES = dict(quick=[dict(variant="rel", dirs=zoo.DIRS, cases=60000, cap=80), dict(variant="rel", dirs=zoo.EXTRA_DIRS, full="try", zoo="extra", cases=12000, cap=50)], thorough=[dict(variant="rel", dirs=zoo.DIRS, cases=300000, cap=600), dict(variant="rel", dirs=zoo.EXTRA_DIRS, full="try", zoo="extra", cases=100000, cap=200)])
RULE = ("a random valid request of every analysis, finder, filter, neighbor list and box operation is made invalid in one way (array one row short or long, doubled, emptied, with a wrong inner dimension or an extra or missing "
        "axis; neighbor list for one more or fewer points; contradictory, unknown or out-of-range query arguments; box of the wrong dimension; constructor arguments out of range); the call has to raise, a fresh object "
        "must have no result to read afterwards and the valid request must then still give the result it gave before; distinct by (operation, invalidation)")
REQUIRED = dict(rejections=10000, unread_after_rejection=5000, valid_before_and_after=8000)
ASSUMPTIONS = ["which exception is raised is not judged"]


def case(i, rng, mon):
    k = i % 4
    if k < 2 or zoo.pool() is zoo.EXTRA:
        analysis(i, rng, mon)
    elif k == 2:
        (constructors, lists)[int(rng.integers(2))](rng, mon)
    else:
        (finders, boxes, others)[int(rng.integers(3))](rng, mon)


def rejected(mon, what, fn):
    mon.event("rejections")
    mon.raises(Exception, fn, what)


# ---- analyses -------------------------------------------------------------------------------------------------
def analysis(i, rng, mon):
    e = zoo.pool()[(i // 4 * 2 + i % 4) % len(zoo.pool())]
    P = e.params(rng)
    f = e.frame(rng, P)
    inv = [m for m in invalidations(rng, e, P, f)]
    if not inv:
        return
    obj = e.new(P)
    good = run(e, obj, f)
    for _ in range(min(3, len(inv))):
        name, g, over = inv[int(rng.integers(len(inv)))]
        mon.describe(analysis=e.name, invalid=name, params=P, box=g.ob.params(), points=g.p, query=g.q, neighbors=str(over.get("neighbors", g.neighbors))[:300], kw=g.kw, arrays={k: v[1] for k, v in g.arrays.items()})
        fresh = e.new(P)
        which = fresh if rng.random() < 0.7 else obj
        over = {k: v() if callable(v) else v for k, v in over.items()}
        rejected(mon, "%s accepted %s" % (e.name, name), lambda: e.call(which, g, **over))
        if which is fresh:
            for a in e.reads:
                mon.event("unread_after_rejection")
                mon.raises(Exception, lambda: getattr(fresh, a), "%s.%s readable after only a rejected call (%s)" % (e.name, a, name))
        mon.sig(e.name, name)
    mon.event("valid_before_and_after")
    again = run(e, obj, f)
    zoo.same(mon, e, again, good, "after rejected calls")


def run(e, obj, f):
    e.call(obj, f)
    return e.read(obj)


def invalidations(rng, e, P, f):
    """(name, frame, call overrides) of requests that are certainly invalid."""
    out = []

    def add(name, fn, over=None):
        g = f.copy()
        if fn(g) is not False:
            out.append((name, g, over or {}))
    n, nq = len(f.p), f.nq
    if e.name == "Interface" and isinstance(f.neighbors, tuple):
        return out  # judges the list alone
    holder = e.name in ("AABBQuery.query", "LinkCell.query", "Box.wrap", "UnitCell")
    for k, (kind, a) in f.arrays.items():
        per = kind in ("p", "q")

        def put(v, k=k):
            def fn(g):
                if v is None or v.shape == f.arrays[k][1].shape:
                    return False
                g.arrays[k][1] = v
            return fn
        if per:
            # a lone array defines its own number of particles
            lone = not e.needs_sys and sum(v[0] == "p" for v in f.arrays.values()) < 2
            if not lone:
                add("%s one short" % k, put(a[:-1]))
                add("%s one long" % k, put(np.concatenate([a, a[:1]])))
                add("%s doubled" % k, put(np.concatenate([a, a])))
                add("%s empty" % k, put(a[:0]))
        if a.ndim >= 2:
            add("%s without last component" % k, put(a[..., :-1]))
            add("%s with extra component" % k, put(np.concatenate([a, a[..., :1]], axis=-1)))
            add("%s flattened" % k, put(a.reshape(-1)) if a.size != a.shape[-1] else put(None))
        if not (k in ("orientations", "query_orientations") and "PMFT" in e.name) and k != "equiv_orientations":
            add("%s with extra axis" % k, put(a[..., None] if a.ndim == 1 else a[None]))
    if "images" in f.arrays:
        im = f.arrays["images"][1]
        add("images of fewer frames", lambda g: g.arrays["images"].__setitem__(1, im[:-1]))
        add("images of fewer particles", lambda g: g.arrays["images"].__setitem__(1, im[:, :-1]))
    if e.needs_sys:
        if e.name != "Box.wrap" or True:
            def points(name, v):
                def fn(g):
                    g.p = v
                add("points " + name, fn)
            points("with 2 components", f.p[:, :2])
            points("with 4 components", np.hstack([f.p, f.p[:, :1]]))
            if n > 1:
                points("flattened", f.p.reshape(-1))
            points("with extra axis", f.p[None])
            if f.ob.is2D and e.name not in ("Box.wrap",):
                bad = f.p.copy()
                bad[int(rng.integers(n)), 2] = rng.choice([-1, 1]) * rng.uniform(0.01, 3)
                points("outside the plane", bad)
        if f.q is not None and e.qok:
            def query(name, v):
                def fn(g):
                    g.q = v
                add("query points " + name, fn)
            query("with 2 components", f.q[:, :2])
            query("with 4 components", np.hstack([f.q, f.q[:, :1]]))
            if nq > 1:
                query("flattened", f.q.reshape(-1))
            query("with extra axis", f.q[None])
        if isinstance(f.neighbors, tuple):
            _, a, b, vv, w = f.neighbors
            a, b, vv = a.astype(np.uint32), b.astype(np.uint32), f32(vv)
            L = fr.freud.locality.NeighborList

            def nl(dq, dp):
                return lambda: L.from_arrays(nq + dq, n + dp, a, b, vv)
            if e.name != "ClusterProperties":
                add("neighbor list for one more query point", lambda g: None, dict(neighbors=nl(1, 0)))
                add("neighbor list for one more point", lambda g: None, dict(neighbors=nl(0, 1)))
                add("neighbor list for twice the points", lambda g: None, dict(neighbors=nl(nq, n)))
                # the indices fit, the sizes do not
                if nq > 1:
                    add("neighbor list for one query point fewer", lambda g: None, dict(neighbors=lambda: L.from_arrays(nq - 1, n, np.minimum(a, nq - 2).astype(np.uint32), b, vv)))
                if n > 1:
                    add("neighbor list for one point fewer", lambda g: None, dict(neighbors=lambda: L.from_arrays(nq, n - 1, a, np.minimum(b, n - 2).astype(np.uint32), vv)))
        if f.neighbors is not None or e.name in ("RDF", "CorrelationFunction", "LocalDensity") or e.name.startswith("PMFT"):
            lim = f.ob.rlim()
            bad = [dict(r_max=1.0, nonsense=3), dict(mode="ball"), dict(mode="nearest"), dict(mode="sideways", r_max=1.0), dict(num_neighbors=3, scale=0.9), dict(num_neighbors=3, scale=1.0),
                   dict(mode="nearest", r_max=1.0), dict(), dict(exclude_ii=True), dict(r_min=0.1)]
            if e.name != "LinkCell.query":
                bad += [dict(r_max=float(lim * rng.uniform(1.01, 3)))]
            for q in bad:
                if e.name in ("RDF", "CorrelationFunction", "LocalDensity") or e.name.startswith("PMFT"):
                    # these complete missing arguments with their own r_max
                    if set(q) <= {"exclude_ii", "r_min", "mode"} and q.get("mode", "ball") == "ball":
                        continue
                if e.name == "LinkCell.query" and "scale" in q:
                    continue  # not used by cell lists
                add("query arguments %s" % ({k: (v if k != "r_max" else "..") for k, v in q.items()},), lambda g: None, dict(neighbors=q))
            if not holder:
                for v in (5, "ball", [1, 2], np.zeros((3, 2))):
                    add("neighbors=%r" % (type(v).__name__), lambda g: None, dict(neighbors=v))
        if e.dims == (2,):
            def cube(g):
                g.ob = OBox(8, 8, 8)
            add("a 3D box", cube)
        elif e.dims == (3,) and e.name != "DiffractionPattern":
            def square(g):
                g.ob = OBox(8, 8, 0)
                g.p = g.p * np.float32([1, 1, 0])
                if g.q is not None:
                    g.q = g.q * np.float32([1, 1, 0])
            add("a 2D box", square)
        elif e.name == "DiffractionPattern":
            def noncube(g):
                g.ob = OBox(8, 8, 6)
            add("a box that is not cubic", noncube)

            def tilted(g):
                g.ob = OBox(8, 8, 8, 0.3)
            add("a tilted box", tilted)

            def square(g):
                g.ob = OBox(8, 8, 0)
                g.p = g.p * np.float32([1, 1, 0])
            add("a 2D box", square)
    return out


def constructors(rng, mon):
    F = fr.freud
    D, E, O, Pm, S, Loc = F.density, F.environment, F.order, F.pmft, F.diffraction, F.locality
    neg = float(-rng.uniform(1e-3, 5))
    pos = float(rng.uniform(0.5, 5))
    z = (0, neg)[int(rng.integers(2))]
    T = [
        ("RDF bins 0", lambda: D.RDF(0, pos)), ("RDF bins -1", lambda: D.RDF(-1, pos)), ("RDF r_max", lambda: D.RDF(10, z)), ("RDF r_min", lambda: D.RDF(10, pos, neg)), ("RDF r_min > r_max", lambda: D.RDF(10, pos, pos * 1.5)),
        ("RDF r_min = r_max", lambda: D.RDF(10, pos, pos)), ("RDF mode", lambda: D.RDF(10, pos, normalization_mode="none")), ("RDF bins text", lambda: D.RDF("ten", pos)),
        ("CorrelationFunction bins", lambda: D.CorrelationFunction(0, pos)), ("CorrelationFunction r_max", lambda: D.CorrelationFunction(10, z)),
        ("LocalDensity r_max", lambda: D.LocalDensity(z, 1.0)), ("LocalDensity diameter", lambda: D.LocalDensity(pos, neg)),
        ("GaussianDensity r_max", lambda: D.GaussianDensity(10, z, 1.0)), ("GaussianDensity sigma", lambda: D.GaussianDensity(10, pos, z)),
        ("GaussianDensity width of 4", lambda: D.GaussianDensity((4, 4, 4, 4), pos, 1.0)), ("GaussianDensity width 0", lambda: D.GaussianDensity((4, 0, 4), pos, 1.0)), ("GaussianDensity width -2", lambda: D.GaussianDensity(-2, pos, 1.0)),
        ("SphereVoxelization r_max", lambda: D.SphereVoxelization(10, z)), ("SphereVoxelization width 0", lambda: D.SphereVoxelization((4, 0, 4), pos)),
        ("BondOrder bins 1", lambda: E.BondOrder((1, 4))), ("BondOrder bins 0", lambda: E.BondOrder(0)), ("BondOrder bins of 3", lambda: E.BondOrder((4, 4, 4))), ("BondOrder mode", lambda: E.BondOrder((4, 4), "bodd")),
        ("BondOrder bins -3", lambda: E.BondOrder((-3, 4))),
        ("Hexatic k text", lambda: O.Hexatic("six")), ("Hexatic k negative", lambda: O.Hexatic(-6)),
        ("Cubatic t_final 0", lambda: O.Cubatic(1.0, 0.0, 0.5)), ("Cubatic t_final < 1e-6", lambda: O.Cubatic(1.0, 1e-7, 0.5)), ("Cubatic t_initial < t_final", lambda: O.Cubatic(0.5, 0.6, 0.5)), ("Cubatic scale 1", lambda: O.Cubatic(1.0, 0.1, 1.0)),
        ("Cubatic scale 0", lambda: O.Cubatic(1.0, 0.1, 0.0)), ("Cubatic scale negative", lambda: O.Cubatic(1.0, 0.1, neg)), ("Cubatic no replicates", lambda: O.Cubatic(1.0, 0.1, 0.5, 0)),
        ("RotationalAutocorrelation odd l", lambda: O.RotationalAutocorrelation(3)), ("RotationalAutocorrelation l < 0", lambda: O.RotationalAutocorrelation(-2)),
        ("PMFTR12 r_max", lambda: Pm.PMFTR12(z, 4)), ("PMFTR12 bins", lambda: Pm.PMFTR12(pos, 0)), ("PMFTR12 bins of 2", lambda: Pm.PMFTR12(pos, (4, 4))), ("PMFTR12 bins with 0", lambda: Pm.PMFTR12(pos, (4, 0, 4))),
        ("PMFTXYT x_max", lambda: Pm.PMFTXYT(z, pos, 4)), ("PMFTXYT y_max", lambda: Pm.PMFTXYT(pos, z, 4)), ("PMFTXYT bins", lambda: Pm.PMFTXYT(pos, pos, (4, 4, 0))), ("PMFTXYT bins of 2", lambda: Pm.PMFTXYT(pos, pos, (4, 4))),
        ("PMFTXY x_max", lambda: Pm.PMFTXY(z, pos, 4)), ("PMFTXY y_max", lambda: Pm.PMFTXY(pos, z, 4)), ("PMFTXY bins", lambda: Pm.PMFTXY(pos, pos, (0, 4))), ("PMFTXY bins of 3", lambda: Pm.PMFTXY(pos, pos, (4, 4, 4))),
        ("PMFTXYZ x_max", lambda: Pm.PMFTXYZ(z, pos, pos, 4)), ("PMFTXYZ y_max", lambda: Pm.PMFTXYZ(pos, z, pos, 4)), ("PMFTXYZ z_max", lambda: Pm.PMFTXYZ(pos, pos, z, 4)), ("PMFTXYZ bins", lambda: Pm.PMFTXYZ(pos, pos, pos, (4, 4, 0))),
        ("PMFTXYZ bins of 2", lambda: Pm.PMFTXYZ(pos, pos, pos, (4, 4))),
        ("Debye num_k_values", lambda: S.StaticStructureFactorDebye(0, pos)), ("Debye one k value", lambda: S.StaticStructureFactorDebye(1, pos)), ("Debye k_max", lambda: S.StaticStructureFactorDebye(5, z)), ("Debye k_min", lambda: S.StaticStructureFactorDebye(5, pos, neg)),
        ("Debye k_min > k_max", lambda: S.StaticStructureFactorDebye(5, pos, pos * 1.1)),
        ("DiffractionPattern grid_size text", lambda: S.DiffractionPattern("big")), ("MSD mode", lambda: F.msd.MSD(mode="windows")), ("MSD box", lambda: F.msd.MSD("box")),
        ("UnitCell points of 2", lambda: F.data.UnitCell([1, 1, 1], [[0.0, 0.0]]).generate_system(2)), ("UnitCell points flat", lambda: F.data.UnitCell([1, 1, 1], [0.0, 0.0, 0.0, 0.5]).generate_system(2)),
        ("Box without Ly", lambda: F.box.Box(2)), ("Box text", lambda: F.box.Box("a", 2, 3)), ("from_box of 5", lambda: F.box.Box.from_box([1, 2, 3, 0, 0])), ("from_box text", lambda: F.box.Box.from_box("cube")),
        ("from_box without lengths", lambda: F.box.Box.from_box(dict(xy=1))), ("from_box 1D", lambda: F.box.Box.from_box([4.0])), ("from_matrix 2x2", lambda: F.box.Box.from_matrix(np.eye(2))),
        ("from_box_lengths_and_angles alpha 0", lambda: F.box.Box.from_box_lengths_and_angles(1, 1, 1, 0, 1, 1)), ("from_box_lengths_and_angles beta pi", lambda: F.box.Box.from_box_lengths_and_angles(1, 1, 1, 1, np.pi, 1)),
        ("from_box_lengths_and_angles impossible", lambda: F.box.Box.from_box_lengths_and_angles(1, 1, 1, 0.2, 0.2, 3.0)),
        ("num threads text", lambda: F.parallel.set_num_threads("two")),
        ("make_random_system points", lambda: F.data.make_random_system(4.0, -1)),
        ("NeighborQuery.from_system of a box", lambda: Loc.NeighborQuery.from_system(F.box.Box.cube(3))), ("NeighborQuery.from_system of 3", lambda: Loc.NeighborQuery.from_system((F.box.Box.cube(3), np.zeros((2, 3)), 4))),
    ]
    for k in rng.permutation(len(T))[:12]:
        name, fn = T[k]
        mon.describe(constructor=name, neg=neg, pos=pos, zero_or_negative=z)
        rejected(mon, "constructor accepted invalid argument: " + name, fn)
        mon.sig("constructor", name)


# ---- neighbor lists -------------------------------------------------------------------------------------------
def lists(rng, mon):
    NL = fr.freud.locality.NeighborList
    n, m, k = int(rng.integers(2, 12)), int(rng.integers(2, 12)), int(rng.integers(2, 40))
    a = np.sort(rng.integers(0, n, size=k)).astype(np.uint32)
    b = rng.integers(0, m, size=k).astype(np.uint32)
    v = f32(rng.normal(size=(k, 3)))
    w = f32(rng.random(k))
    a[0], a[-1] = 0, n - 1
    big = a.copy()
    big[-1] = n + int(rng.choice([0, 1, 1000]))
    bigp = b.copy()
    bigp[int(rng.integers(k))] = m + int(rng.choice([0, 1, 1000]))
    T = [("short point indices", (n, m, a, b[:-1], v, w)), ("short query point indices", (n, m, a[:-1], b, v, w)), ("short vectors", (n, m, a, b, v[:-1], w)), ("long vectors", (n, m, a, b, np.vstack([v, v[:1]]), w)),
         ("short weights", (n, m, a, b, v, w[:-1])), ("long weights", (n, m, a, b, v, np.concatenate([w, w]))), ("vectors of 2", (n, m, a, b, v[:, :2], w)), ("flat vectors", (n, m, a, b, v.ravel(), w)),
         ("unsorted indices", (n, m, a[::-1].copy(), b, v, w)), ("query point index too large", (n, m, big, b, v, w)), ("point index too large", (n, m, a, bigp, v, w)), ("2D indices", (n, m, a[:, None], b, v, w)),
         ("distances for vectors", (n, m, a, b, np.linalg.norm(v, axis=1), w))]
    for name, args in [T[int(j)] for j in rng.permutation(len(T))[:5]]:
        mon.describe(from_arrays=name, n=n, m=m, i=a, j=b, v=v)
        rejected(mon, "from_arrays accepted " + name, lambda: NL.from_arrays(*args[:5], weights=args[5]))
        mon.sig("from_arrays", name)
    nl = NL.from_arrays(n, m, a, b, v, weights=w)
    before = zoo.as_array(nl)
    U = [("short mask", lambda: nl.filter(np.ones(k - 1, bool))), ("long mask", lambda: nl.filter(np.ones(k + 1, bool))), ("2D mask", lambda: nl.filter(np.ones((k, 1), bool))), ("empty mask", lambda: nl.filter([])),
         ("filter_r(-1)", lambda: nl.filter_r(-1.0)), ("filter_r r_min > r_max", lambda: nl.filter_r(1.0, 1.5)), ("filter_r r_min < 0", lambda: nl.filter_r(1.0, -0.5)),
         ("all_pairs of 2 components", lambda: NL.all_pairs((fr.freud.box.Box.cube(5), v[:, :2]))), ("all_pairs query of 2 components", lambda: NL.all_pairs((fr.freud.box.Box.cube(5), v), v[:, :2])),
         ("find_first_index text", lambda: nl.find_first_index("a"))]
    for name, fn in [U[int(j)] for j in rng.permutation(len(U))[:4]]:
        mon.describe(list_operation=name, n=n, m=m, i=a, j=b, v=v)
        rejected(mon, "NeighborList accepted " + name, fn)
        mon.sig("NeighborList", name)
    mon.event("valid_before_and_after")
    mon.check(np.array_equal(zoo.as_array(nl), before), "rejected operations changed the neighbor list", got=zoo.as_array(nl), want=before)


# ---- finders --------------------------------------------------------------------------------------------------
def finders(rng, mon):
    L = fr.freud.locality
    ob = geo.random_box(rng, None, lo=3.0, hi=12, maxtilt=0.6)
    n = int(rng.integers(2, 40))
    p = geo.points(rng, ob, n, "uniform")
    q = geo.points(rng, ob, int(rng.integers(1, 20)), "uniform")
    lim = ob.rlim()
    box = ob.freud()
    kind = ("AABB", "LinkCell", "CellQuery", "raw")[int(rng.integers(4))]
    cw = float(ob.planes()[: ob.d].min() * 0.4)
    mk = dict(AABB=lambda b, x: L.AABBQuery(b, x), LinkCell=lambda b, x: L.LinkCell(b, x, cw), CellQuery=lambda b, x: L.CellQuery(b, x), raw=lambda b, x: L.NeighborQuery.from_system((b, x)))[kind]
    mon.describe(finder=kind, box=ob.params(), points=p, query=q)
    nq = mk(box, p)
    good = dict(r_max=float(lim * 0.5), exclude_ii=False)
    want = zoo.canon(nq.query(q, good).toNeighborList())
    over = float(lim * rng.uniform(1.005, 4))
    T = [("points of 2 components", lambda: mk(box, p[:, :2])), ("points of 4 components", lambda: mk(box, np.hstack([p, p[:, :1]]))), ("flat points", lambda: mk(box, p.ravel())), ("points with extra axis", lambda: mk(box, p[None])),
         ("query points of 2 components", lambda: run_q(nq, q[:, :2], good)), ("flat query points", lambda: run_q(nq, q.ravel() if len(q) > 1 else np.zeros(4), good)), ("unknown argument", lambda: run_q(nq, q, dict(good, rmax=1.0))),
         ("ball without r_max", lambda: run_q(nq, q, dict(mode="ball"))), ("nearest without num_neighbors", lambda: run_q(nq, q, dict(mode="nearest"))), ("unknown mode", lambda: run_q(nq, q, dict(mode="balls", r_max=0.5))),
         ("no mode", lambda: run_q(nq, q, dict(exclude_ii=True))), ("empty arguments", lambda: run_q(nq, q, {})), ("r_min only", lambda: run_q(nq, q, dict(r_min=0.1))), ("r_guess only", lambda: run_q(nq, q, dict(r_guess=1.0))),
         ("arguments not a dict", lambda: run_q(nq, q, 3)), ("text r_max", lambda: run_q(nq, q, dict(r_max="a"))), ("text box", lambda: mk("box", p))]
    if kind in ("AABB", "raw", "CellQuery"):
        T += [("r_max too large", lambda: run_q(nq, q, dict(r_max=over, mode="ball"))), ("r_max too large", lambda: run_q(nq, q, dict(r_max=over)))]
    if kind in ("AABB", "raw"):
        T += [("scale 1", lambda: run_q(nq, q, dict(num_neighbors=2, scale=1.0))), ("scale below 1", lambda: run_q(nq, q, dict(num_neighbors=2, scale=0.5)))]
    if kind == "LinkCell":
        T += [("cell width too large", lambda: L.LinkCell(box, p, float(ob.planes()[: ob.d].min() * rng.uniform(0.51, 3)))), ("cell width 0", lambda: L.LinkCell(box, p, -1.0)), ("cell width tiny", lambda: L.LinkCell(box, p, 1e-7))]
    if kind == "CellQuery":
        per = rng.random(3) < 0.5
        per[int(rng.integers(ob.d))] = False
        o2 = OBox(*ob.L, ob.xy, ob.xz, ob.yz, is2D=ob.is2D, periodic=per)
        T += [("a non-periodic box", lambda: run_q(L.CellQuery(o2.freud(), p), q, good))]
    if ob.is2D:
        bad = p.copy()
        bad[int(rng.integers(n)), 2] = 0.5
        T += [("points outside the plane", lambda: mk(box, bad))]
    for name, fn in [T[int(j)] for j in rng.permutation(len(T))[:7]]:
        mon.describe(request=name)
        rejected(mon, "%s accepted %s" % (kind, name), fn)
        mon.sig(kind, name)
    mon.event("valid_before_and_after")
    got = zoo.canon(nq.query(q, good).toNeighborList())
    mon.check(got.shape == want.shape and np.array_equal(got, want), "rejected queries changed a later answer", got=got, want=want)


def run_q(nq, q, args):
    return nq.query(q, args).toNeighborList()


# ---- boxes ----------------------------------------------------------------------------------------------------
def boxes(rng, mon):
    ob = geo.random_box(rng, None, lo=1.0, hi=12, maxtilt=0.8)
    box = ob.freud()
    n = int(rng.integers(2, 20))
    p = geo.points(rng, ob, n, "uniform")
    q = geo.points(rng, ob, n + 1, "uniform")
    im = rng.integers(-3, 4, size=(n, 3))
    w = f32(rng.random(n) + 0.1)
    mon.describe(box=ob.params(), points=p)
    before = repr(box)
    p2 = p[:, :2]
    p4 = np.hstack([p, p[:, :1]])
    T = []
    for nm in ("wrap", "get_images", "make_fractional", "make_absolute", "contains", "center_of_mass", "center"):
        T += [(nm + " of 2 components", lambda nm=nm: getattr(box, nm)(p2)), (nm + " of 4 components", lambda nm=nm: getattr(box, nm)(p4)), (nm + " of text", lambda nm=nm: getattr(box, nm)("abc"))]
    T += [("unwrap of 2 components", lambda: box.unwrap(p2, im)), ("unwrap with images of 2 components", lambda: box.unwrap(p, im[:, :2])), ("unwrap with fewer images", lambda: box.unwrap(p, im[:-1] if n > 2 else im[:0])),
          ("unwrap with more images", lambda: box.unwrap(p, np.vstack([im, im[:1]]))),
          ("compute_distances of other lengths", lambda: box.compute_distances(p, q)), ("compute_distances of 2 components", lambda: box.compute_distances(p, p2)), ("compute_all_distances of 2 components", lambda: box.compute_all_distances(p2, q)),
          ("center_of_mass with fewer masses", lambda: box.center_of_mass(p, w[:-1])), ("center_of_mass with more masses", lambda: box.center_of_mass(p, np.concatenate([w, w]))), ("center with fewer masses", lambda: box.center(p, w[:-1])),
          ("get_box_vector(3)", lambda: box.get_box_vector(3)), ("get_box_vector(7)", lambda: box.get_box_vector(7)), ("multiplied by 0", lambda: box * 0.0), ("multiplied by -1", lambda: box * -1.0),
          ("periodic of 2", lambda: setattr(box, "periodic", [True, False])), ("L of 4", lambda: setattr(box, "L", [1, 2, 3, 4])), ("dimensions 4", lambda: setattr(box, "dimensions", 4)), ("dimensions 1", lambda: setattr(box, "dimensions", 1)),
          ("wrap out of another shape", lambda: box.wrap(p, out=np.zeros((n + 1, 3), np.float32))), ("wrap out of another type", lambda: box.wrap(p, out=np.zeros((n, 3), np.float64)))]
    for name, fn in [T[int(j)] for j in rng.permutation(len(T))[:8]]:
        mon.describe(request=name)
        rejected(mon, "Box accepted " + name, fn)
        mon.sig("Box", name)
    mon.event("valid_before_and_after")
    mon.check(repr(box) == before, "rejected calls changed the box", got=repr(box), want=before)


# ---- the rest -------------------------------------------------------------------------------------------------
def others(rng, mon):
    F = fr.freud
    L = F.locality
    ob = geo.random_box(rng, None, lo=4.0, hi=9, maxtilt=0.4)
    n = int(rng.integers(4, 30))
    p = geo.points(rng, ob, n, "uniform")
    box = ob.freud()
    mon.describe(box=ob.params(), points=p)
    uc = F.data.UnitCell([1, 1, 0] if ob.is2D else [1, 1, 1], np.zeros((1, 3)))
    pb = L.PeriodicBuffer
    s = float(rng.uniform(0.1, 1))
    o = geo.random_quats(rng, n)
    T = [("generate_system(0)", lambda: uc.generate_system(0)), ("generate_system(-1)", lambda: uc.generate_system(-1)), ("generate_system(1.5)", lambda: uc.generate_system(1.5)), ("generate_system of 2", lambda: uc.generate_system((2, 2))),
         ("generate_system(scale<=0)", lambda: uc.generate_system(1, scale=-1.0)),
         ("buffer of 2", lambda: pb().compute((box, p), [s, s])), ("negative buffer", lambda: pb().compute((box, p), -s)), ("negative buffer in y", lambda: pb().compute((box, p), [s, -s, 0])), ("points of 2 components", lambda: pb().compute((box, p[:, :2]), s)),
         ("text buffer", lambda: pb().compute((box, p), "much")),
         ("orientations of other lengths", lambda: F.order.RotationalAutocorrelation(2).compute(o, o[:-1])), ("orientations of 3", lambda: F.order.RotationalAutocorrelation(2).compute(o[:, :3], o[:, :3])),
         ("Cubatic orientations of 3", lambda: F.order.Cubatic(1, 0.5, 0.5).compute(o[:, :3])),
         ("global orientations of 3", lambda: F.environment.AngularSeparationGlobal().compute(o[:, :3], o)), ("FilterSANN without neighbor list", lambda: L.FilterSANN().compute((box, p), 4)),
         ("FilterRAD on a list for other points", lambda: L.FilterRAD().compute((box, p), L.NeighborList.all_pairs((box, p[:-1])))), ("FilterSANN on a list for other points", lambda: L.FilterSANN().compute((box, p), L.NeighborList.all_pairs((box, p[:-1])))),
         ("positions of 2 components", lambda: F.msd.MSD().compute(np.zeros((3, 4, 2)))), ("images of other shape", lambda: F.msd.MSD(box).compute(np.zeros((3, 4, 3)), images=np.zeros((3, 5, 3), int)))]
    for name, fn in [T[int(j)] for j in rng.permutation(len(T))[:8]]:
        mon.describe(request=name)
        rejected(mon, "accepted " + name, fn)
        mon.sig("other", name)

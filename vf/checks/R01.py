"""Reported parameters, histogram axes, default query arguments and repr against what was given and what is computed."""
import re
import numpy as np
from vf import fr, geo, zoo

PHASES = dict(quick=[dict(variant="rel", dirs=zoo.DIRS, cases=16000, cap=60), dict(variant="rel", dirs=zoo.EXTRA_DIRS, full="try", zoo="extra", cases=6000, cap=40)],
              thorough=[dict(variant="rel", dirs=zoo.DIRS, cases=250000, cap=600), dict(variant="rel", dirs=zoo.EXTRA_DIRS, full="try", zoo="extra", cases=100000, cap=240)])
RULE = ("every analysis x random constructor arguments x random systems: getters against the arguments before the first compute, after it and after later ones; histogram bins, bounds, edges and centers against "
        "the uniform partition the arguments define; the object rebuilt by eval(repr()) against the original (same repr, same results on the same input); compute without neighbors against compute with the documented default "
        "query; the reported box against the last system; non-trivial = results compared; distinct by (analysis, parameters that vary, dimension, defaulted neighbors)")
REQUIRED = dict(getters=10000, axes=1500, rebuilt=1500, default_queries=800, boxes=800)
ASSUMPTIONS = ["partially periodic boxes are not rebuilt from repr (the Box constructor takes no periodicity)", "neighbor filters have no constructor expression as repr"]
THREADS = (1, 1, 2, 8)
GET = {"RDF": {"r_max": "r_max"}, "PMFTXYZ": {"shiftvec": "shiftvec"}, "PMFTXY": {}, "PMFTXYT": {}, "PMFTR12": {"r_max": "r_max"}, "BondOrder": {"mode": "mode"}, "MSD": {"mode": "mode"},
       "StaticStructureFactorDirect": dict(k_max="k_max", k_min="k_min", num_sampled_k_points="num_sampled_k_points"), "FilterRAD": {}}
TAU = 2 * np.pi


def axes(name, P):
    """(lo, hi) of every histogram axis, from the documentation."""
    if name == "RDF":
        return [(P["r_min"], P["r_max"])]
    if name == "CorrelationFunction":
        return [(0, P["r_max"])]
    if name == "BondOrder":
        return [(0, TAU), (0, np.pi)]
    if name == "PMFTR12":
        return [(0, P["r_max"]), (0, TAU), (0, TAU)]
    if name == "PMFTXYT":
        return [(-P["x_max"], P["x_max"]), (-P["y_max"], P["y_max"]), (0, TAU)]
    if name == "PMFTXY":
        return [(-P["x_max"], P["x_max"]), (-P["y_max"], P["y_max"])]
    if name == "PMFTXYZ":
        return [(-P[k], P[k]) for k in ("x_max", "y_max", "z_max")]
    if name == "StaticStructureFactorDirect":
        return [(P["k_min"], P["k_max"])]


def default_args(name, P):
    if name in ("RDF", "CorrelationFunction", "PMFTR12"):
        return dict(mode="ball", r_max=P["r_max"])
    if name == "LocalDensity":
        return dict(mode="ball", r_max=P["r_max"] + P["diameter"] / 2)
    if name == "Hexatic":
        return dict(mode="nearest", num_neighbors=P["k"])
    if name in ("PMFTXY", "PMFTXYT"):
        return dict(mode="ball", r_max=np.hypot(P["x_max"], P["y_max"]))
    if name == "PMFTXYZ":
        return dict(mode="ball", r_max=np.sqrt(P["x_max"] ** 2 + P["y_max"] ** 2 + P["z_max"] ** 2))


def vary(rng, e):
    P = e.params(rng)
    for k, v in list(P.items()):
        if isinstance(v, float) and rng.random() < 0.7 and k not in ("k_min", "r_min"):
            P[k] = float(v * rng.uniform(0.75, 1.0))
    if e.name == "Steinhardt" and rng.random() < 0.3:
        P["l"] = tuple(np.atleast_1d(P["l"]))
    if e.name == "BondOrder" and rng.random() < 0.2:
        P["bins"] = P["bins"][0]
    if e.name == "StaticStructureFactorDirect" and rng.random() < 0.3:
        P["num_sampled_k_points"] = int(rng.integers(1, 4000))
    if e.name == "DiffractionPattern" and rng.random() < 0.3:
        P.pop("output_size")
    return P


NUM = re.compile(r"-?\d+\.?\d*(?:[eE][-+]?\d+)?")


def same_text(mon, got, want, what, tol):
    """Equal, with numbers allowed to differ by tol."""
    a, b = NUM.split(got), NUM.split(want)
    x, y = [float(v) for v in NUM.findall(got)], [float(v) for v in NUM.findall(want)]
    mon.check(a == b and len(x) == len(y) and all(abs(u - v) <= tol for u, v in zip(x, y)), "%s is %s, expected %s" % (what, got, want))


def norm(v):
    return np.atleast_1d(np.asarray(v)).ravel()


def getters(mon, e, P, obj, when):
    names = GET.get(e.name)
    if names is None:
        names = {k: k for k in P if k[0] != "_" and k not in ("bins", "normalization_mode")}
    for k, a in names.items():
        if k not in P:
            continue
        w, g = P[k], getattr(obj, a)
        if k == "powers" and w is None:
            w = [2.0]       # the documented default
        if isinstance(w, (str, bool, np.bool_)) or w is None:
            mon.check(g == w, "%s.%s %s is %r, given %r" % (e.name, a, when, g, w))
        else:
            w, g = norm(w), norm(g)
            if e.name in ("GaussianDensity", "SphereVoxelization") and k == "width" and len(w) == 1:
                w = np.repeat(w, 3)
                w[2] = g[2] if when == "after compute" and obj.box.is2D else w[2]     # 2D: one layer
            mon.check(w.shape == g.shape and np.all(np.abs(w - g) <= 1e-6 * np.maximum(np.abs(w), P.get("k_max", 0))), "%s.%s %s is %r, given %r" % (e.name, a, when, g.tolist(), w.tolist()))
        mon.event("getters")
    if e.name == "DiffractionPattern" and "output_size" not in P:
        mon.equal(obj.output_size, P["grid_size"], "output_size defaults to grid_size")
    ax = axes(e.name, P)
    if ax is not None:
        n = norm(P["bins"])
        if len(n) == 1:
            n = np.repeat(n, len(ax))
        one = len(ax) == 1
        mon.equal(norm(obj.nbins), n, "%s.nbins %s" % (e.name, when))
        b = [obj.bounds] if one else list(obj.bounds)
        ed = [obj.bin_edges] if one else list(obj.bin_edges)
        ce = [obj.bin_centers] if one else list(obj.bin_centers)
        mon.check(len(b) == len(ed) == len(ce) == len(ax), "%s has one entry per axis %s" % (e.name, when))
        for (lo, hi), m, x, y, z in zip(ax, n, b, ed, ce):
            s = max(abs(lo), abs(hi)) * 1e-6
            want = np.linspace(lo, hi, int(m) + 1)
            mon.close(np.asarray(x, float), [lo, hi], "%s.bounds %s" % (e.name, when), atol=s)
            mon.close(np.asarray(y, float), want, "%s.bin_edges %s" % (e.name, when), atol=2 * s)
            mon.close(np.asarray(z, float), (want[1:] + want[:-1]) / 2, "%s.bin_centers %s" % (e.name, when), atol=2 * s)
            mon.event("axes")
    d = default_args(e.name, P)
    if d is not None:
        g = dict(obj.default_query_args)
        mon.check(set(g) == set(d) and g["mode"] == d["mode"], "%s.default_query_args are %r, expected %r" % (e.name, g, d))
        for k in d:
            if k != "mode":
                mon.close(float(g[k]), d[k], "%s.default_query_args[%s]" % (e.name, k), rtol=1e-6)


def case(i, rng, mon):
    pool = zoo.pool()
    e = pool[i % len(pool)]
    P = vary(rng, e)
    obj = e.new(P)
    mon.describe(analysis=e.name, params=P)
    if isinstance(obj, zoo._Holder):
        return finders(rng, mon)
    getters(mon, e, P, obj, "before compute")
    text = repr(obj)
    twin = None
    if e.name not in ("FilterSANN", "FilterRAD"):
        ob = P.get("ob")
        if ob is None or ob.periodic.all():
            twin = eval(text, dict(freud=fr.freud, np=np))
            mon.check(type(twin) is type(obj), "eval(repr) of %s is a %s" % (e.name, type(twin).__name__))
            same_text(mon, repr(twin), text, "repr of the rebuilt " + e.name, P.get("k_max", 0) * 1e-6)
            mon.equal(str(obj), text, "str is repr")
            getters(mon, e, P, twin, "of the rebuilt object")
    same = default_args(e.name, P) is not None and rng.random() < 0.5
    done = 0
    dim = 2 if 2 in e.dims and (3 not in e.dims or rng.random() < 0.4) else 3
    if not isinstance(P.get("width", 1), int):
        dim = 3
    for step in range(int(rng.integers(1, 4))):
        f = e.frame(rng, P, dim=dim) if step == 0 or rng.random() < 0.5 else zoo.relative(rng, e, P, f, dim)
        if same:
            f.neighbors = None
        mon.describe(box=f.ob and f.ob.params(), points=f.p, query_points=f.q, neighbors=f.neighbors if not isinstance(f.neighbors, tuple) else "list", kw=f.kw)
        try:
            e.call(obj, f)
        except Exception as ex:
            try:
                e.call(e.new(P), f)
            except Exception as ex2:
                mon.check(type(ex) is type(ex2), "%r against %r" % (ex, ex2))
                mon.event("rejected_frames")
                continue
            raise
        got = e.read(obj)
        done += 1
        if twin is not None and not P.get("num_sampled_k_points"):      # a random sample of k points
            e.call(twin, f)
            zoo.same(mon, e, e.read(twin), got, "rebuilt from repr")
            mon.event("rebuilt")
        if same:
            d = dict(default_args(e.name, P), exclude_ii=f.q is None)
            if e.name == "PMFTXYZ" or "r_max" in d:      # the value the class uses, in its own precision
                d["r_max"] = float(obj.default_query_args["r_max"])
            o = e.new(P)
            e.call(o, f, neighbors=d)
            zoo.same(mon, e, e.read(o), got, "default query")
            mon.event("default_queries")
        if hasattr(type(obj), "box") and e.name != "MSD":
            mon.check(obj.box == f.ob.freud() and list(obj.box.periodic) == list(f.ob.freud().periodic), "%s.box is the box of the last system" % e.name, got=str(obj.box), want=str(f.ob.freud()))
            mon.event("boxes")
        elif e.name == "MSD":
            if P["ob"] is not None:
                mon.check(obj.box == P["ob"].freud(), "MSD.box")
                mon.event("boxes")
            else:
                mon.check(obj.box is None, "MSD.box is None")
        getters(mon, e, P, obj, "after compute")
        mon.equal(repr(obj), text, "repr after compute") if e.name not in ("FilterSANN", "FilterRAD", "StaticStructureFactorDirect", "GaussianDensity", "SphereVoxelization") else None
    if done:
        mon.sig(e.name, sorted(P), same, getattr(f.ob, "d", 0), f.q is None)


def finders(rng, mon):
    """Boxes, points, cells and unit cells report what they were made of."""
    L = fr.freud.locality
    ob = geo.random_box(rng)
    n = geo.nonzero_n(rng, 40)
    p = geo.points(rng, ob, n)
    mon.describe(box=ob.params(), points=p)
    box = ob.freud()
    k = int(rng.integers(4))
    if k == 0:
        o = L.AABBQuery(box, p)
    elif k == 1:
        w = float(min(ob.planes()[: ob.d]) * rng.uniform(0.2, 0.45))
        o = L.LinkCell(box, p, cell_width=w)
        mon.close(o.cell_width, w, "LinkCell.cell_width", rtol=1e-6)
        mon.event("getters")
    elif k == 2:
        o = L.NeighborQuery.from_system((box, p))
    else:
        basis = rng.random((int(rng.integers(1, 5)), 3)) * [1, 1, not ob.is2D]
        u = fr.freud.data.UnitCell(box, basis)
        mon.check(u.box == box and u.dimensions == ob.d, "UnitCell.box")
        mon.close(u.basis_positions, basis, "UnitCell.basis_positions", atol=1e-6)
        M = np.asarray(box.to_matrix(), float)
        for j, a in enumerate((u.a1, u.a2, u.a3)):
            mon.close(a, M[:, j], "UnitCell.a%d" % (j + 1), atol=1e-5 * max(1, np.abs(M).max()))
        mon.close(u.lattice_vectors, M, "UnitCell.lattice_vectors", atol=1e-5 * max(1, np.abs(M).max()))
        mon.event("getters", 5)
        return mon.sig("UnitCell", ob.d, len(basis))
    mon.check(o.box == box and list(o.box.periodic) == list(box.periodic), "%s.box" % type(o).__name__, got=str(o.box), want=str(box))
    mon.equal(o.points, p, "%s.points" % type(o).__name__)
    mon.event("boxes")
    b2 = eval(repr(box), dict(freud=fr.freud))
    mon.check(b2 == fr.freud.box.Box(*box.to_box_params(), is2D=box.is2D), "eval(repr(box))")
    mon.event("getters", 2)
    mon.sig(type(o).__name__, ob.d)

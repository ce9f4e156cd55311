"""The same system handed over in every accepted form."""
import os, shutil, tempfile, types
import numpy as np
from vf import fr, geo, zoo, nb
from vf.geo import f32

PHASES = dict(quick=[dict(variant="rel", dirs=zoo.DIRS, cases=40000, cap=80)], thorough=[dict(variant="rel", dirs=zoo.DIRS, cases=300000, cap=800)])
RULE = ("random 2D and 3D boxes and points as tuple, list, query object, duck-typed object, MDAnalysis Timestep, gsd Frame (in memory and read back from a file), stand-ins for garnett, OVITO and HOOMD objects, each with "
        "lists, arrays and float64 coordinates, and with the box as Box, dict, list, matrix or object: box, dimensionality and points of the resulting query object (NeighborQuery, AABBQuery, LinkCell) and the results of "
        "a random analysis against those of the plain (Box, points) pair; non-trivial = triclinic or 2D or several images; distinct by (form, container, class, box class)")
REQUIRED = dict(systems=30000, analyses=6000, mdanalysis=1000, gsd_frames=2000, gsd_files=50, triclinic=10000)
ASSUMPTIONS = ["garnett, OVITO and HOOMD are not installed: classes of the same qualified names with the documented attributes stand in for them",
               "forms that give the box as a matrix or by angles carry it to single precision: their boxes are compared with tolerance, and analyses run on them only to tolerance-free shape checks"]
_MDA = _GSD = None


def libs():
    global _MDA, _GSD
    if _MDA is None:
        try:
            from MDAnalysis.coordinates.timestep import Timestep
            _MDA = Timestep
        except Exception:
            _MDA = False
        try:
            import gsd.hoomd
            _GSD = gsd.hoomd
        except Exception:
            _GSD = False
    return _MDA, _GSD


def fake(path, **attrs):
    """An instance of a class with this qualified name (or of a subclass)."""
    mod, name = path.rsplit(".", 1)
    cls = type(name, (), dict(__module__=mod))
    if attrs.pop("_sub", False):
        cls = type("Mine", (cls,), {})
    o = cls()
    o.__dict__.update(attrs)
    return o


def hoomd2(ob):
    return types.SimpleNamespace(Lx=ob.L[0], Ly=ob.L[1], Lz=1.0 if ob.is2D else ob.L[2], xy=ob.xy, xz=ob.xz, yz=ob.yz, dimensions=ob.d)


def lengths_angles(ob):
    a, b, c = ob.M.T
    ang = lambda u, v: np.degrees(np.arccos(u @ v / np.linalg.norm(u) / np.linalg.norm(v)))
    return [np.linalg.norm(a), np.linalg.norm(b), np.linalg.norm(c), ang(b, c), ang(a, c), ang(a, b)]


def six(ob):
    return [float(x) for x in (*ob.L, ob.xy, ob.xz, ob.yz)]


def box_form(rng, ob):
    """(name, exact?, box-like)"""
    k = int(rng.integers(8))
    p = six(ob)
    if ob.is2D and k == 4:
        k = 0
    if k == 0:
        return "Box", True, ob.freud()
    if ob.is2D and k in (1, 5) and rng.random() < 0.5:
        p[2] = float(rng.uniform(0.5, 2))  # a flat box that says so, with a thickness that means nothing
    if k == 1:
        return "dict", True, dict(zip(("Lx", "Ly", "Lz", "xy", "xz", "yz"), p), dimensions=ob.d)
    if k == 2:
        return "list6", True, p
    if k == 3:
        return "array6", True, np.array(p, np.float32 if rng.random() < 0.5 else float)
    if k == 4:
        return "matrix", False, ob.M.copy() if rng.random() < 0.5 else ob.M.tolist()
    if k == 5:
        return "object", True, types.SimpleNamespace(Lx=p[0], Ly=p[1], Lz=p[2], xy=p[3], xz=p[4], yz=p[5], dimensions=ob.d)
    if k == 6 and not any(p[3:]):
        return "list", True, p[:2] if ob.is2D else p[:3]
    return "dict", True, dict(zip(("Lx", "Ly", "Lz", "xy", "xz", "yz"), p))


def forms(rng, ob, p, mon, analysis):
    """(name, exact box?, system)"""
    MDA, GSD = libs()
    k = int(rng.integers(12))
    bn, ex, b = box_form(rng, ob)
    pts = (p, p.tolist(), p.astype(np.float64), np.asfortranarray(p))[int(rng.integers(4))]
    sub = bool(rng.random() < 0.3)
    if k == 0:
        return "tuple/" + bn, ex, (b, pts)
    if k == 1:
        return "list/" + bn, ex, [b, pts]
    if k == 2:
        return "duck/" + bn, ex, types.SimpleNamespace(box=b, points=pts)
    if k == 3:
        L = fr.freud.locality
        # analyses on cell lists (other search limits and ties) are compared in N04
        o = (L.AABBQuery, L.NeighborQuery.from_system, L.LinkCell)[int(rng.integers(2 if analysis else 3))]
        return "query", True, o((ob.freud(), p)) if o == L.NeighborQuery.from_system else o(ob.freud(), p)
    if k in (4, 5):
        if ob.is2D:
            return "tuple/" + bn, ex, (b, pts)
        if MDA and k == 4:
            ts = MDA(len(p))
            ts.positions = p
            ts.dimensions = lengths_angles(ob)
            if np.abs(np.asarray(ts.triclinic_dimensions).T - ob.M).max() > 1e-3 * np.abs(ob.M).max():
                return "tuple/" + bn, ex, (b, pts)       # angles MDAnalysis does not take
            mon.event("mdanalysis")
            return "MDAnalysis", False, ts
        path = "MDAnalysis.coordinates." + ("base", "timestep")[int(rng.integers(2))] + ".Timestep"
        mon.event("mdanalysis_standins")
        return path, False, fake(path, triclinic_dimensions=f32(ob.M.T), positions=p, _sub=sub)
    if k in (6, 7):
        bx = six(ob)
        if ob.is2D:
            bx[2] = float(rng.choice([0.0, 1.0, 0.1]))
        if GSD and rng.random() < 0.7:
            s = GSD.Frame()
            s.configuration.box = bx
            s.configuration.dimensions = ob.d
            s.particles.position = p
            s.particles.N = len(p)
            mon.event("gsd_frames")
            if rng.random() < 0.04:
                d = tempfile.mkdtemp(prefix="vf-gsd-")
                try:
                    fn = os.path.join(d, "t.gsd")
                    with GSD.open(fn, "w") as t:
                        t.append(s)
                    with GSD.open(fn, "r") as t:
                        s = t[0]
                finally:
                    shutil.rmtree(d, ignore_errors=True)
                mon.event("gsd_files")
                return "gsd file", True, s
            return "gsd Frame", True, s
        path = ("gsd.hoomd.Frame", "gsd.hoomd.Snapshot", "hoomd.snapshot.Snapshot")[int(rng.integers(3))]
        conf = types.SimpleNamespace(box=bx if rng.random() < 0.5 else np.array(bx), dimensions=ob.d)
        return path, True, fake(path, configuration=conf, particles=types.SimpleNamespace(position=p), _sub=sub)
    if k == 8:
        new = bool(rng.random() < 0.5)
        return "garnett " + ("new" if new else "old"), True, fake("garnett.trajectory.Frame", box=types.SimpleNamespace(**{k: v for k, v in zip(("Lx", "Ly", "Lz", "xy", "xz", "yz"), six(ob))}, dimensions=ob.d),
                                                                 _sub=sub, **{"position" if new else "positions": p})
    if k == 9:
        M = ob.M.copy()
        if ob.is2D:
            M[2, 2] = float(rng.choice([0.0, 1.0, 0.5]))
        path = ("ovito.data.DataCollection", "ovito.plugins.PyScript.DataCollection", "PyScript.DataCollection")[int(rng.integers(3))]
        cell = types.SimpleNamespace(matrix=np.column_stack([M, rng.normal(size=3)]), is2D=ob.is2D)
        return path, False, fake(path, cell=cell, particles=types.SimpleNamespace(positions=p), _sub=sub)
    return "hoomd2", True, types.SimpleNamespace(box=hoomd2(ob), particles=types.SimpleNamespace(position=p))


def case(i, rng, mon):
    L = fr.freud.locality
    e = None
    if rng.random() < 0.35:
        pool = [x for x in zoo.ALL if x.needs_sys and x.name not in ("AABBQuery.query", "LinkCell.query", "Box.wrap")]
        e = pool[int(rng.integers(len(pool)))]
        P = e.params(rng)
        dim = int(rng.choice(e.dims))
        if not isinstance(P.get("width", 1), int):
            dim = 3
        f = e.frame(rng, P, dim=dim)
        ob, p = f.ob, f.p
    else:
        ob = geo.random_box(rng)
        p = geo.points(rng, ob, geo.nonzero_n(rng, 60))
        if rng.random() < 0.4:
            p = ob.shifted(rng, p, 2)
    name, exact, s = forms(rng, ob, p, mon, e is not None)
    mon.describe(form=name, box=ob.params(), points=p)
    want = ob.freud()
    cls = (L.NeighborQuery, L.AABBQuery, L.LinkCell)[int(rng.integers(3))]
    q = cls.from_system(s)
    mon.check(isinstance(q, cls), "from_system of %s gives a %s" % (cls.__name__, type(q).__name__))
    if name == "query" and isinstance(s, cls):
        mon.check(q is s, "a query object is used as it is")
    b = q.box
    tag = "%s.from_system(%s)" % (cls.__name__, name)
    mon.check(b.is2D == want.is2D and b.dimensions == want.dimensions, tag + ": dimensionality", got=b.dimensions, want=want.dimensions)
    mon.equal(list(b.periodic), list(want.periodic), tag + ": periodicity")
    if exact:
        mon.check(b == want, tag + ": box", got=str(b), want=str(want))
    M, W = np.asarray(b.to_matrix(), float), np.asarray(want.to_matrix(), float)
    mon.close(M, W, tag + ": box matrix", rtol=1e-4, atol=3e-5 * np.abs(W).max())
    mon.equal(q.points, p, tag + ": points")
    mon.event("systems")
    tri = not ob.ortho
    if tri:
        mon.event("triclinic")
    if e is not None:
        ref, got = e.new(P), e.new(P)
        try:
            e.call(ref, f)
        except Exception as ex:
            mon.raises(type(ex), lambda: e.call(got, f, system=s), "rejected for the plain pair, for " + name)
            mon.event("rejected")
            return
        if exact:
            e.call(got, f, system=s)
            zoo.same(mon, e, e.read(got), e.read(ref), "system as " + name, exact=name != "query" and fr.freud.parallel.get_num_threads() == 1)
            mon.event("analyses")
        elif not (e.name == "DiffractionPattern"):
            e.call(got, f, system=s)
            a, r = e.read(got), e.read(ref)
            for k in r:
                mon.check(a[k].ndim == r[k].ndim, "shape of %s.%s for %s" % (e.name, k, name))
            mon.event("rounded_boxes")
    elif len(p) > 1:
        # neighbors of the handed-over system, against the plain pair; exact boxes give identical bonds
        kw = dict(r_max=float(np.float32(ob.rlim() * rng.uniform(0.2, 0.9))), exclude_ii=True)
        if exact:
            A = nb.nlist_cols(L.AABBQuery.from_system(s).query(p, kw).toNeighborList())
            B = nb.nlist_cols(L.AABBQuery(want, p).query(p, kw).toNeighborList())
            for x, y in zip(A, B):
                mon.equal(x, y, tag + ": bonds")
        else:
            x = L.AABBQuery.from_system(s).query(p, kw).toNeighborList()
            y = L.AABBQuery(want, p).query(p, kw).toNeighborList()
            mon.check(abs(len(x) - len(y)) <= 2 + len(y) // 50, tag + ": number of bonds", got=len(x), want=len(y))
        mon.event("neighborhoods")
    if tri or ob.is2D:
        mon.sig(name, cls.__name__, ob.key(), e.name if e else "")

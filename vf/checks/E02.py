"""Angular separations and bond projections against explicit minimisation over the equivalents."""
import numpy as np
from vf import fr, geo, nb, hist
from vf.geo import f32, qmul, qconj, qrot

PHASES = dict(quick=[dict(variant="rel", dirs=["environment"], cases=10000, cap=70)], thorough=[dict(variant="rel", dirs=["environment"], cases=400000, cap=850)])
RULE = ("random systems x neighbor specifications x orientations (random, special, near-identical) x rotation groups given in any order with or without both signs; every angle and projection compared "
        "with the minimisation in double precision, indexed through the reported neighbor list; non-trivial = at least one value judged; distinct by (class, box class, kind, group, sizes)")
REQUIRED = dict(angles_judged=100000, projections_judged=50000)
ASSUMPTIONS = ["angles are compared through the cosine of the half angle, where single precision is uniform"]


def group(rng):
    """Rotation groups of the cube's subgroups and cyclic groups."""
    k = int(rng.integers(6))
    if k == 0:
        n = int(rng.integers(1, 7))
        a = np.pi * np.arange(n) / n
        g = np.stack([np.cos(a), 0 * a, 0 * a, np.sin(a)], 1)
    elif k == 1:
        g = np.eye(4)                         # D2
    elif k in (2, 3):
        gens = [np.array([np.sqrt(.5), np.sqrt(.5), 0, 0]), np.array([np.sqrt(.5), 0, 0, np.sqrt(.5)])]
        if k == 3:
            gens = [np.array([.5, .5, .5, .5]), np.array([0, 1., 0, 0])]
        g = [np.array([1., 0, 0, 0])]
        todo = list(g)
        while todo:
            x = todo.pop()
            for y in gens:
                z = qmul(x, y)
                if not any(min(np.abs(z - w).max(), np.abs(z + w).max()) < 1e-6 for w in g):
                    g.append(z)
                    todo.append(z)
        g = np.array(g)
    elif k == 4:
        g = np.array([[1., 0, 0, 0]])
    else:
        g = np.concatenate([[[1., 0, 0, 0]], geo.random_quats(rng, int(rng.integers(0, 5)), False)])
    name = "%d:%d" % (k, len(g))
    g = g * rng.choice([-1, 1], size=(len(g), 1))
    if rng.random() < 0.6:
        g = np.concatenate([g, -g])
        name += "+-"
    if rng.random() < 0.6:
        g = g[rng.permutation(len(g))]
    return name, f32(g)


def orientations(rng, n):
    if rng.random() < 0.15:
        base = geo.random_quats(rng, 1)
        q = base + rng.normal(size=(n, 4)) * 10.0 ** -rng.integers(2, 7)
        return f32(q / np.linalg.norm(q, axis=1, keepdims=True))
    return geo.random_quats(rng, n)


def max_cos(ref, q, E):
    """max over candidates of Re(candidate * conj(ref)) = cos(theta/2), ref and q broadcast."""
    best = qmul(q, qconj(ref))[..., 0]
    qt = qmul(q, qconj(E[0]))
    for e in E:
        best = np.maximum(best, qmul(qmul(qt, e), qconj(ref))[..., 0])
    return np.clip(best, -1, 1)


def judge_angles(mon, what, got, c):
    mon.check(got.shape == c.shape, what + ": shape %s, expected %s" % (got.shape, c.shape))
    if not got.size:
        return
    mon.check(np.all(np.isfinite(got)) and got.min() >= 0 and got.max() <= 2 * np.pi + 1e-5, what + ": angles in range")
    e = np.abs(np.cos(got.astype(float) / 2) - c)
    if e.max() > 3e-6:
        k = tuple(np.argwhere(e == e.max())[0])
        mon.check(False, what + ": angle %s is %r, expected %r" % (k, got[k].item(), 2 * np.arccos(c[k])))
    mon.check(True, what)
    mon.event("angles_judged", got.size)


def check_nlist(mon, what, nl, s):
    """The reported neighbor list holds the bonds the neighbor specification stands for."""
    nb.check_table(mon, what, nl, len(s.qq), len(s.p))
    i, j, d, v, w = nb.nlist_cols(nl)
    b = s.bonds
    if s.kind == "dict":
        cnt = {}
        for x in zip(i.tolist(), j.tolist()):
            cnt[x] = cnt.get(x, 0) + 1
        may, must = set(zip(b.i.tolist(), b.j.tolist())), set(zip(b.i[b.sure].tolist(), b.j[b.sure].tolist()))
        mon.check(max(cnt.values(), default=0) <= 1 and set(cnt) <= may and must <= set(cnt), what + ": bonds of the reported neighbor list")
    else:
        mon.equal(i, b.i, what + ": query indices of the given list")
        mon.equal(j, b.j, what + ": point indices of the given list")
    return i, j, d, v, w


def case(i, rng, mon):
    E = fr.freud.environment
    name, eq = group(rng)
    kind = int(rng.integers(4))
    ekw = dict(equiv_orientations=eq if rng.random() < 0.7 else eq.tolist())
    if rng.random() < 0.15:
        eq, ekw, name = f32([[1, 0, 0, 0]]), {}, "default"
    eqd = eq.astype(float)
    if kind == 0:
        n, m = geo.nonzero_n(rng, 40), geo.nonzero_n(rng, 30)
        glob, ori = orientations(rng, m), orientations(rng, n)
        if rng.random() < 0.3:
            ori[: min(n, m)] = glob[: min(n, m)]
        mon.describe(glob=glob, orientations=ori, equiv=eq)
        a = E.AngularSeparationGlobal()
        if rng.random() < 0.3:
            a.compute(orientations(rng, 3), orientations(rng, 50), geo.random_quats(rng, 2))
        r = a.compute(glob, ori, **ekw)
        mon.check(r is a, "compute returns the object")
        judge_angles(mon, "AngularSeparationGlobal", a.angles, max_cos(ori.astype(float)[:, None], glob.astype(float)[None], eqd))
        mon.sig("global", name, n, m)
        return
    s = hist.make_source(rng, kinds=("dict", "nlist", "query"), nmax=50)
    b = s.bonds
    np_, nq = len(s.p), len(s.qq)
    ori = orientations(rng, np_)
    kw = dict(neighbors=s.neighbors, **ekw)
    if s.q is not None:
        kw["query_points"] = s.q
    if kind in (1, 2):
        qori = ori
        if (s.q is not None and (nq != np_ or rng.random() < 0.5)) or rng.random() < 0.3:
            qori = orientations(rng, nq)
            kw["query_orientations"] = qori
        mon.describe(box=s.ob.params(), points=s.p, query_points=s.q, kind=s.kind, equiv=eq, orientations=ori, query_orientations=qori)
        a = E.AngularSeparationNeighbor()
        if rng.random() < 0.3:
            x = f32(rng.normal(size=(5, 3)))
            a.compute((fr.freud.box.Box.cube(9), x), orientations(rng, 5), neighbors=dict(num_neighbors=2))
        a.compute(s.system(rng), ori, **kw)
        if rng.random() < 0.5:
            got = a.angles
            nl = a.nlist
        else:
            nl = a.nlist
            got = a.angles
        qi, pj = check_nlist(mon, "AngularSeparationNeighbor.nlist", nl, s)[:2]
        judge_angles(mon, "AngularSeparationNeighbor", got, max_cos(qori.astype(float)[qi], ori.astype(float)[pj], eqd) if len(qi) else np.zeros(0))
        if len(qi):
            mon.sig("neighbor", s.ob.key(), s.kind, name, "query_orientations" in kw, s.q is not None)
        return
    nv = int(rng.integers(1, 5))
    pv = rng.normal(size=(nv, 3))
    if rng.random() < 0.4:
        pv = np.eye(3)[rng.integers(0, 3, size=nv)] * rng.choice([-1, 1, 2], size=(nv, 1))
    pv = f32(pv)
    mon.describe(box=s.ob.params(), points=s.p, query_points=s.q, kind=s.kind, equiv=eq, orientations=ori, proj=pv)
    a = E.LocalBondProjection()
    if rng.random() < 0.3:
        x = f32(rng.normal(size=(5, 3)))
        a.compute((fr.freud.box.Box.cube(9), x), orientations(rng, 5), f32([[0, 0, 1], [1, 0, 0]]), neighbors=dict(num_neighbors=2))
    a.compute(s.system(rng), ori, pv, **kw)
    got, gn, nl = a.projections, a.normed_projections, a.nlist
    qi, pj, d, v, w = check_nlist(mon, "LocalBondProjection.nlist", nl, s)
    mon.check(got.shape == (len(qi), nv) and gn.shape == (len(qi), nv), "one projection per bond and vector")
    if not len(qi):
        return
    loc = qrot(qconj(ori[pj]), v.astype(float))
    best = loc @ pv.astype(float).T
    for e in eqd:
        best = np.maximum(best, loc @ qrot(qmul(qconj(eqd[0]), e)[None], pv.astype(float)).T)
    sc = np.linalg.norm(v, axis=1)[:, None] * np.linalg.norm(pv, axis=1)[None]
    mon.check(np.all(np.abs(got - best) <= 3e-6 * sc + 1e-9), "projections", got=got, want=best)
    z = d > 0
    mon.check(np.all(np.abs(gn[z] - best[z] / d[z, None]) <= 4e-6 * (sc / np.maximum(d, 1e-30)[:, None])[z] + 1e-9), "normed_projections", got=gn, want=best / d[:, None])
    mon.event("projections_judged", got.size)
    mon.sig("projection", s.ob.key(), s.kind, name, nv, s.q is not None)

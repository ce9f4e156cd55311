"""Hexatic order against the mean bond phase in double precision."""
import numpy as np
from vf import fr, geo, nb, hist
from vf.geo import f32

PHASES = dict(quick=[dict(variant="rel", dirs=["order"], cases=40000, cap=70)], thorough=[dict(variant="rel", dirs=["order"], cases=600000, cap=850)])
RULE = ("random 2D systems x k x weighting x neighbor specifications (ball, nearest, default, weighted lists) x shared finder kinds; every particle's value compared with the bond phases; "
        "regular shells and rotated copies of the whole system; non-trivial = at least one particle with bonds judged; distinct by (box class, kind, mode, k, weighted, size)")
REQUIRED = dict(particles_judged=30000, particles_with_list_vectors=10000, shells=500, rotations=300)
ASSUMPTIONS = ["particles without neighbors, with zero total weight, or with a bond along a box face or of (nearly) zero length are not judged"]


def expected(ob, p, b, w, k, wrapped=False):
    """(psi, tolerance) per particle; tolerance inf where undetermined."""
    n = len(p)
    P = p.astype(float)
    given = b.v is not None and not b.tol and not wrapped       # vectors stored in a neighbor list
    d = b.v if given else ob.wrap(P[b.j] - P[b.i])
    r = np.hypot(d[:, 0], d[:, 1])
    t = 2 * ob.tol(p)          # also of stored vectors: the phases may be taken from the positions
    e = np.where(r > 0, np.minimum(k * (t / np.maximum(r, 1e-300) + 6e-7) + 1e-6, 2.5), 2.5)
    e[ob.near_face(P[b.j] - P[b.i], max(2 * t, 1e-9))] = 2.5
    ph = np.exp(1j * k * np.arctan2(d[:, 1], d[:, 0]))
    psi, tw, te = np.zeros(n, complex), np.zeros(n), np.zeros(n)
    np.add.at(psi, b.i, w * ph)
    np.add.at(tw, b.i, w)
    np.add.at(te, b.i, np.abs(w) * e)
    cnt = np.bincount(b.i, minlength=n)
    te[np.unique(b.i[~b.sure])] = np.inf
    with np.errstate(all="ignore"):
        ab = np.bincount(b.i, weights=np.abs(w), minlength=n)
        tol = (te + 2e-7 * cnt * ab) / np.abs(tw)
        tol[(cnt == 0) | ~(np.abs(tw) > 1e-12 + 1e-3 * ab)] = np.inf
        return psi / tw, tol


def shell_case(rng, mon):
    """A perfect k-fold shell around one particle: magnitude 1 and the phase of its rotation."""
    k = int(rng.integers(1, 13))
    m = k * int(rng.integers(1, 3)) if rng.random() < 0.3 else k
    L = float(rng.uniform(5, 50))
    ob = geo.OBox(L, L * float(rng.uniform(1, 2)), 0, float(rng.uniform(-.5, .5)) if rng.random() < .5 else 0)
    phi, R = rng.uniform(-np.pi, np.pi), 0.1 * L
    a = phi + 2 * np.pi * (np.arange(m) % k) / k
    R = R * (1 + 0.2 * (np.arange(m) // k))
    c = ob.abs(rng.random(3))
    pts = np.concatenate([[c], c + np.stack([R * np.cos(a), R * np.sin(a), 0 * a], 1)])
    pts = f32(ob.wrap(pts))
    h = fr.freud.order.Hexatic(k=k)
    h.compute((ob.freud(), pts), neighbors=dict(r_max=0.15 * L))
    mon.describe(shell=pts, k=k, phi=phi, box=ob.params())
    got = h.particle_order[0]
    mon.check(abs(got - np.exp(1j * k * phi)) < k * 4 * ob.tol(pts) / (0.1 * L) + 1e-5, "perfect %d-fold shell: %r, expected exp(i k phi) = %r" % (k, got, np.exp(1j * k * phi)))
    mon.event("shells")
    mon.sig("shell", k, m, ob.key())


def rotation_case(rng, mon):
    """Rotating the cluster by phi multiplies every value by exp(i k phi)."""
    k, n = int(rng.integers(1, 13)), int(rng.integers(4, 40))
    L = 40.0
    box = fr.freud.box.Box.square(L)
    x = np.zeros((n, 3))
    x[:, :2] = rng.uniform(-6, 6, size=(n, 2))
    phi = rng.uniform(-np.pi, np.pi)
    c, s = np.cos(phi), np.sin(phi)
    y = x @ np.array([[c, s, 0], [-s, c, 0], [0, 0, 1]])
    i, j = np.nonzero(~np.eye(n, dtype=bool))
    keep = rng.random(len(i)) < 0.4
    i, j = i[keep], j[keep]
    w = f32(rng.uniform(0.1, 3, size=len(i)))
    weighted = bool(rng.random() < 0.5)
    h = fr.freud.order.Hexatic(k, weighted)
    NL = fr.freud.locality.NeighborList
    mon.describe(points=x, k=k, phi=phi, weighted=weighted)
    va = []
    for z in (f32(x), f32(y)):
        d = f32(z[j] - z[i])
        va.append(np.array(h.compute((box, z), neighbors=NL.from_arrays(n, n, i.astype(np.uint32), j.astype(np.uint32), d, weights=w)).particle_order))
    dmin = np.full(n, np.inf)
    np.minimum.at(dmin, i, np.linalg.norm(x[j] - x[i], axis=1))
    ok = np.isfinite(dmin)
    e = np.abs(va[1] - va[0] * np.exp(1j * k * phi))[ok]
    mon.check(np.all(e < k * 2e-5 / dmin[ok] + 1e-5), "rotation by phi multiplies the order by exp(i k phi)", before=va[0], after=va[1])
    mon.event("rotations")
    mon.sig("rotation", k, n, weighted)


def case(i, rng, mon):
    r = rng.random()
    if r < 0.08:
        return shell_case(rng, mon)
    if r < 0.14:
        return rotation_case(rng, mon)
    ob, p, _, tol, mode = nb.rand_system(rng, nmax=80, dim=2, separate=False)
    n = len(p)
    k = int(rng.integers(1, 13))
    weighted = bool(rng.random() < 0.5)
    h = fr.freud.order.Hexatic(k=k, weighted=weighted) if rng.random() < 0.8 or k != 6 or weighted else fr.freud.order.Hexatic()
    mon.check(h.k == k and bool(h.weighted) == weighted, "k and weighted")
    if rng.random() < 0.3:
        h.compute((fr.freud.box.Box.square(9), f32(
            np.pad(rng.normal(size=(int(rng.integers(8, 60)), 2)), ((0, 0), (0, 1))))), neighbors=dict(r_max=2.0))
    kind = ("ball", "ball", "nearest", "default", "nlist", "nlist")[int(rng.integers(6))]
    L = fr.freud.locality
    box = ob.freud()
    if kind == "ball":
        s = hist.make_source(rng, system=(ob, p, None, tol, mode), kinds=("dict",))
        b, neigh, sysm = s.bonds, s.neighbors, s.system(rng)
        w = np.ones(len(b.i))
    elif kind in ("nearest", "default"):
        kk = k if kind == "default" else int(rng.integers(1, 8))
        D = geo.pair_table(ob, p, p)[1]
        np.fill_diagonal(D, np.inf)
        S = np.sort(D, axis=1)
        sure_q = np.ones(n, bool)
        rl = ob.rlim()
        bi, bj, su = [], [], []
        for a in range(n):
            if n - 1 < kk or S[a][kk - 1] > 0.98 * rl:
                mon.event("neighbor_out_of_reach")
                sure_q[a] = False
                if n > 1:
                    bi.append(a); bj.append((a + 1) % n); su.append(False)
                continue
            if n - 1 > kk and S[a][kk] - S[a][kk - 1] <= 4 * ob.tol(p):
                sure_q[a] = False
            o = np.argsort(D[a], kind="stable")[:kk]
            for x in o:
                bi.append(a); bj.append(int(x)); su.append(bool(sure_q[a]))
        b = hist.Bonds(np.array(bi, int), np.array(bj, int), None, None, None, tol, np.array(su, bool))
        w = np.ones(len(b.i))
        neigh = None if kind == "default" else dict(num_neighbors=kk)
        sysm = (box, p) if rng.random() < 0.5 else L.AABBQuery(box, p)
        if n == 1:
            return
    else:
        m = int(rng.integers(0, 6 * n))
        a = np.sort(rng.integers(0, n, size=m))
        c = rng.integers(0, n, size=m)
        w = rng.uniform(0, 3, size=m)
        w[rng.random(m) < 0.1] = 0
        if rng.random() < 0.25:
            w *= rng.choice([-1, 1, 1], size=m)
        w = f32(w)
        v = f32(geo.pair_table(ob, p, p)[0][a, c])
        if rng.random() < 0.5 and m:         # bonds to other images of the points, as a Voronoi list of a small cell has them
            sh = rng.integers(-1, 2, size=(m, 3)) * (rng.random(m) < 0.5)[:, None]
            sh[:, 2] = 0
            v = f32(v + sh @ ob.M.T)
        v[(v == 0).all(1), 0] = 0.5
        neigh = L.NeighborList.from_arrays(n, n, a.astype(np.uint32), c.astype(np.uint32), v, weights=w)
        a, c, _, v = nb.nlist_cols(neigh)[:4]      # the list sorts its bonds
        w = np.array(neigh.weights).astype(float)
        b = hist.Bonds(a, c, None, v.astype(float), None, 0.0, np.ones(m, bool))
        if not weighted:
            w = np.ones(m)
        sysm = (box, p)
    mon.describe(box=ob.params(), points=p, k=k, weighted=weighted, kind=kind, neighbors=neigh if isinstance(neigh, dict) else kind,
                 bonds=np.stack([b.i, b.j], 1) if len(b.i) < 60 else len(b.i))
    r = h.compute(sysm, neighbors=neigh) if neigh is not None else h.compute(sysm)
    mon.check(r is h, "compute returns the object")
    got = h.particle_order
    mon.check(got.shape == (n,) and np.iscomplexobj(got), "one complex value per particle")
    want, t = expected(ob, p, b, w, k)
    ok = t < 0.5
    e = np.abs(got - want)
    bad = ok & ~(e <= t)
    if kind == "nlist":
        # phases of the wrapped separations of the points instead of those of the bonds
        alt, ta = expected(ob, p, b, w, k, wrapped=True)
        other = np.abs(b.v - ob.wrap(p[b.j].astype(float) - p[b.i])).max(axis=1, initial=0) > 4 * ob.tol(p)
        old = bad & np.isin(np.arange(n), b.i[other]) & (np.abs(got - alt) <= np.where(np.isfinite(ta), ta, 2.5))
        if old.any():
            mon.known("list-vectors")
        bad &= ~old
        ok &= ~old
        mon.event("particles_with_list_vectors", int(ok.sum()))
    if bad.any():
        x = int(np.flatnonzero(bad)[0])
        mon.check(False, "particle %d has order %r, the mean bond phase is %r" % (x, got[x].item(), want[x].item()), tolerance=t[x], neighbors=b.j[b.i == x])
    if (w >= 0).all():
        mon.check(np.all(np.abs(got[np.isfinite(t)]) <= 1 + 1e-5), "magnitude at most 1")
    else:
        mon.event("signed_weights")
    mon.event("particles_judged", int(ok.sum()))
    if rng.random() < 0.02:
        mon.raises(ValueError, lambda: h.compute((fr.freud.box.Box.cube(9), f32(rng.normal(size=(9, 3)))), neighbors=dict(r_max=2)), "3D box")
    if ok.any():
        mon.sig(ob.key(), kind, mode, k, weighted, int(np.log2(n)))

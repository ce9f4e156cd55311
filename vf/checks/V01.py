"""Voronoi tessellations against the definition of the cells (full build: voro++ stand-in)."""
import warnings
import numpy as np
from vf import fr, geo, nb
from vf.geo import f32

PHASES = dict(quick=[dict(variant="rel", dirs=["locality"], full=True, cases=4000, cap=70)],
              thorough=[dict(variant="rel", dirs=["locality"], full=True, cases=150000, cap=800)])
RULE = ("random, clustered, jittered, lattice and one-point systems (2D and 3D, orthogonal and triclinic, points also outside the box, small boxes whose cells touch their own images); every polytope vertex must lie in its cell "
        "and on enough bisectors, every bond vector be a true image separation, every weight the area of the facet the vertices span, every cell closed, its volume that of its polytope and its pyramids, the volumes fill the box, "
        "bonds be mutual and sorted; one object reused and results kept; non-trivial = at least two cells judged; distinct by (box class, point mode, size class, self bonds)")
REQUIRED = dict(cells=30000, facets=150000, vertices=300000, small_facets=500, self_bonds=1000, kept_results=1500, shifted=300)
ASSUMPTIONS = ["voro++ is replaced by a stand-in (shim/ext/voro++): what is decided is what freud makes of the cells", "facets below 1e-4 of the squared box length (edges below 1e-3 of it) need not be reported", "points closer than 1e-3 of the box size are not used",
               "2D systems: points at z = 0"]


def images(ob, p, R):
    """Displacements of all images of p within R of the origin: (index, vector)."""
    d = ob.d
    n = [int(np.ceil((R + np.linalg.norm(ob.M[:d, :d].sum(1))) / ob.planes()[a])) for a in range(d)] + [0] * (3 - d)
    k = np.stack(np.meshgrid(*[np.arange(-x, x + 1) for x in n], indexing="ij"), -1).reshape(-1, 3)
    v = (k @ ob.M.astype(np.float32).astype(float).T)[:, None, :] + p[None]
    idx = np.broadcast_to(np.arange(len(p)), v.shape[:2]).ravel()
    v = v.reshape(-1, 3)
    s = (v * v).sum(1) <= R * R
    return idx[s], v[s]


def polygon_area(x, n):
    """Area of the convex hull polygon of coplanar points x with unit normal n."""
    c = x.mean(0)
    e = np.linalg.svd(x - c)[2][0] if len(x) > 1 else np.array([1.0, 0, 0])
    e = e - n * (e @ n)
    e /= np.linalg.norm(e)
    f = np.cross(n, e)
    a, b = (x - c) @ e, (x - c) @ f
    o = np.argsort(np.arctan2(b, a))
    a, b = a[o], b[o]
    return abs((a * np.roll(b, -1) - b * np.roll(a, -1)).sum()) / 2


def judge(mon, vor, ob, p, full=True):
    d = ob.d
    n = len(p)
    L = ob.volume ** (1 / d)
    P = p.astype(float)
    w0 = ob.wrap(P)
    S = ob.scale()
    tol = 4e-6 * S + ob.tol(p)
    tp = ob.tol(p)
    vol, poly, nl = np.asarray(vor.volumes), vor.polytopes, vor.nlist
    mon.equal(vol.shape, (n,), "one volume per point")
    mon.equal(len(poly), n, "one polytope per point")
    mon.check(np.all(vol > 0), "cells have positive volumes", volumes=vol)
    mon.close(vol.sum(), ob.volume, "the cells fill the box", atol=0, rtol=2e-5)
    i, j, dist, v, w = nb.nlist_cols(nl)
    v, w, dist = v.astype(float), w.astype(float), dist.astype(float)
    mon.check(len(i) == 0 or (i.max() < n and j.max() < n), "bond indices")
    mon.equal(nl.num_points, n, "points of the list")
    mon.equal(nl.num_query_points, n, "query points of the list")
    mon.close(dist, np.linalg.norm(v, axis=1), "distances are the lengths of the vectors", atol=1e-6 * S, rtol=1e-5)
    o = (np.diff(i) > 0) | ((np.diff(i) == 0) & (np.diff(j) >= 0))
    mon.check(np.all(o), "bonds sorted by query point and point", i=i, j=j)
    amin = (1e-4 if d == 3 else 1e-3) * L ** (d - 1)
    big = w > amin
    # true image separations
    sep = P[j] - P[i]
    f = ob.frac(v - sep) - ob.frac(np.zeros((1, 3)))
    f[:, d:] = 0
    e = np.abs((f - np.round(f))[:, :d] @ ob.M[:d, :d].T).max(1) if len(i) else np.zeros(0)
    mon.check(np.all(e[big] <= 4 * tol), "bond vectors are separations of images", worst=e[big].max() if big.any() else 0, i=i[big][e[big] > 4 * tol], j=j[big][e[big] > 4 * tol])
    if d == 2:
        mon.check(np.all(np.abs(v[:, 2]) <= tol), "bonds of 2D systems lie in the plane")
    # mutual bonds
    order = lambda a, b, u: np.lexsort((np.round(u[:, 2] / (20 * tol)), np.round(u[:, 1] / (20 * tol)), np.round(u[:, 0] / (20 * tol)), b, a))
    key = {}
    for q in range(len(i)):
        key.setdefault((int(i[q]), int(j[q])), []).append(q)
    for (a, b), qs in key.items():
        if a > b:
            continue
        rs = key.get((b, a), [])
        for q in qs:
            if not big[q]:
                mon.event("small_facets")
                continue
            r = [r for r in rs if np.abs(v[r] + v[q]).max() <= 8 * tol]
            mon.check(len(r) >= 1, "every bond has its opposite", bond=(a, b), vector=v[q], weight=w[q], opposite=v[rs])
            mon.check(np.abs(w[r] - w[q]).min() <= 4e-5 * L ** (d - 1) + 1e-4 * w[q], "opposite bonds have the same weight", bond=(a, b), w=w[q], opposite=w[r])
        mon.check(len([q for q in qs if w[q] > 1.2 * amin]) <= len([r for r in rs if w[r] > 0.8 * amin]), "bonds are mutual", bond=(a, b))
        mon.check(len([r for r in rs if w[r] > 1.2 * amin]) <= len([q for q in qs if w[q] > 0.8 * amin]), "bonds are mutual", bond=(b, a))
        if a == b:
            mon.event("self_bonds", len(qs))
    for c in range(n):
        x = np.asarray(poly[c], float)
        mon.check(x.ndim == 2 and x.shape[1] == 3 and len(x) > d, "polytope vertices", cell=c, vertices=x)
        x = x - P[c]
        R = np.linalg.norm(x, axis=1).max()
        mon.check(R <= S, "cells are bounded", cell=c, R=R)
        if d == 2:
            mon.check(np.all(np.abs(x[:, 2]) <= tol), "polygons lie in the plane", cell=c)
        idx, u = images(ob, ob.wrap(P - P[c]), 2 * R + 10 * tol)
        uu = (u * u).sum(1)
        s = uu > (10 * tol) ** 2
        idx, u, uu = idx[s], u[s], uu[s]
        # depth of every vertex beyond every bisector
        h = (x @ u.T - uu / 2) / np.sqrt(uu)
        worst = h.max()
        mon.check(worst <= 2 * tp, "polytope vertices are nearer to their own point than to any other", cell=c, beyond=worst, tol=tol)
        on = h >= -2 * tp
        mon.check(np.all(on.sum(1) >= d), "polytope vertices lie on at least d bisectors", cell=c, counts=on.sum(1), depth=np.sort(h[np.argmin(on.sum(1))])[::-1][:6], tol=tol)
        mon.event("vertices", len(x))
        m = i == c
        vv, ww, dd = v[m], w[m], np.linalg.norm(v[m], axis=1)
        ok = dd > 0
        mon.check(np.all(ww >= 0), "weights are areas", weights=ww)
        mon.close((ww * dd).sum() / (2 * d), vol[c], "pyramids over the facets fill the cell", atol=1e-4 * L ** d * (1 if d == 3 else 1), rtol=1e-4, cell=c)
        mon.check(np.abs((vv[ok] * (ww[ok] / dd[ok])[:, None]).sum(0)).max() <= 1e-4 * ww.sum() + 1e-3 * amin * len(ww), "facets close the cell", cell=c)
        if full:
            rep = 0.0
            for q in np.flatnonzero(m):
                if not big[q]:
                    continue
                k = int(np.argmin(np.abs(u - v[q]).sum(1)))
                g = u[k] / np.sqrt(uu[k])
                A = []
                for t in (1e-9 * S, tp, 30 * tp):     # grazing bisectors: the facet may be known only roughly
                    near = h[:, k] >= -t
                    if d == 2:
                        y = x[near] @ np.array([-g[1], g[0], 0])
                        A.append(y.max() - y.min() if len(y) else 0.0)
                    else:
                        A.append(polygon_area(x[near], g) if near.sum() >= 3 else 0.0)
                e = 2e-4 * w[q] + 20 * tp * R ** (d - 2)
                mon.check(min(A) - e <= w[q] <= max(A) + e, "the weight of a bond is the size of its facet", cell=c, bond=int(q), got=w[q], want=A)
                mon.event("facets")
        if d == 2:
            t = np.arctan2(x[:, 1], x[:, 0])
            gap = np.linalg.norm(x - np.roll(x, -1, 0), axis=1) > 20 * tol
            mon.check(((np.roll(t, -1) < t) & gap).sum() <= 1, "polygon vertices are in counter-clockwise order", cell=c, angles=t)
            A = (x[:, 0] * np.roll(x[:, 1], -1) - x[:, 1] * np.roll(x[:, 0], -1)).sum() / 2
            mon.close(A, vol[c], "the volume of a 2D cell is the area of its polygon", atol=2e-5 * L ** 2, rtol=1e-4, cell=c)
        mon.event("cells")
    return bool((i == j).any())


def rand(rng):
    ob = geo.random_box(rng, None, lo=2.0, hi=12.0, maxtilt=0.8)
    n = geo.nonzero_n(rng, 30)
    mode = ("uniform", "uniform", "clustered", "jitter", "lattice", "faces")[int(rng.integers(6))]
    p = geo.points(rng, ob, n, mode)
    # separate points only
    keep = []
    D = geo.pair_table(ob, p, p)[1]
    lim = 1e-3 * ob.scale()
    for a in range(n):
        if all(D[a, b] > lim for b in keep):
            keep.append(a)
    p = p[keep]
    if rng.random() < 0.2:
        p = ob.shifted(rng, p)
        mode += "+shifted"
    return ob, f32(p), mode


def case(i, rng, mon):
    L = fr.freud.locality
    vor = L.Voronoi()
    kept = None
    for step in range(int(rng.integers(1, 4))):
        ob, p, mode = rand(rng)
        mon.describe(box=ob.params(), points=p, mode=mode, step=step)
        sysm = (ob.freud(), p)
        if rng.random() < 0.3:
            sysm = (L.AABBQuery if rng.random() < 0.5 else lambda *a: L.NeighborQuery.from_system(a))(*sysm)
        mon.check(vor.compute(sysm) is vor, "compute returns the object")
        if kept is not None:
            now = (kept[0][:], kept[0].vectors, kept[0].weights)
            mon.equal(len(kept[0]), len(kept[1]), "an earlier neighbor list keeps its bonds")
            mon.equal(np.asarray(kept[0].vectors), kept[2], "an earlier neighbor list keeps its vectors")
            mon.equal(np.asarray(kept[3]), kept[4], "earlier volumes are kept")
            mon.event("kept_results")
        selfb = judge(mon, vor, ob, p)
        nl = vor.nlist
        kept = (nl, nl[:].copy(), nl.vectors.copy(), vor.volumes, np.array(vor.volumes))
        if "shifted" in mode:
            mon.event("shifted")
        if len(p) > 1:
            mon.sig(ob.key(), mode, int(np.log2(len(p))), selfb)

"""Cluster moments against direct double-precision sums."""
import numpy as np
from vf import fr, geo, nb
from vf.geo import f32

PHASES = dict(quick=[dict(variant="rel", dirs=["cluster"], cases=16000, cap=70)], thorough=[dict(variant="rel", dirs=["cluster"], cases=600000, cap=850)])
RULE = ("random boxes x compact, boundary-crossing and spread clusters given in random images and orders x masses x index assignments with gaps; every reported moment compared with the sums of its "
        "definition; compact clusters also with plain (unwrapped) means; non-trivial = at least one multi-point cluster judged; distinct by (box class, masses, clusters, size class, placement)")
REQUIRED = dict(clusters_judged=30000, multi_point=8000, crossing_faces=2000)
ASSUMPTIONS = ["clusters whose circular mean is ill conditioned (resultant below 0.1), or with a member within rounding of half a box from the center, are judged for size and mass only"]


def case(i, rng, mon):
    ob = geo.random_box(rng, hi=30)
    n = geo.nonzero_n(rng, 60)
    if rng.random() < 0.006:
        n = int(np.exp(rng.uniform(np.log(60), np.log(40000))))
    place = ("compact", "compact", "compact", "spread", "coincident", "rod")[int(rng.integers(6))]
    k = int(rng.integers(1, max(2, n // 3 + 1))) if n < 2000 else int(np.exp(rng.uniform(0, np.log(rng.choice([500, 4000])))))
    idx = rng.integers(0, k, size=n)
    if rng.random() < 0.3:
        idx = idx * int(rng.integers(1, 4)) + int(rng.integers(0, 3))      # unused indices
    h = ob.planes()[: ob.d].min()
    cen = rng.random((idx.max() + 1, 3))
    if rng.random() < 0.5:
        cen[rng.random(cen.shape) < 0.6] = rng.choice([0.0, 0.98, 0.02])      # on and across the faces
    if ob.is2D:
        cen[:, 2] = 0
    C = ob.abs(cen)
    if place == "spread":
        off = ob.abs(rng.random((n, 3)) * 0.5 + 0.5)
    elif place == "coincident":
        off = np.zeros((n, 3))
    elif place == "rod":
        off = rng.normal(size=3)[None] * rng.uniform(-1, 1, size=(n, 1))
        off *= 0.2 * h / max(1e-9, np.abs(off).max())
    else:
        off = rng.normal(size=(n, 3)) * h * rng.choice([0.01, 0.04, 0.08])
        off = np.clip(off, -0.24 * h, 0.24 * h)
    if ob.is2D:
        off[:, 2] = 0
    true = C[idx] + off
    p = ob.wrap(true)
    imgs = rng.random() < 0.4
    p = ob.shifted(rng, p, 2) if imgs else f32(p)
    masses = None
    r = rng.random()
    if r < 0.5:
        masses = f32(np.exp(rng.uniform(-2, 2, size=n)))
    elif r < 0.6:
        masses = f32(np.full(n, rng.uniform(0.1, 5)))
    mon.describe(box=ob.params(), points=p, idx=idx, masses=masses, place=place)
    cp = fr.freud.cluster.ClusterProperties()
    if rng.random() < 0.3:
        m0 = geo.nonzero_n(rng, 30)
        cp.compute((ob.freud(), geo.points(rng, ob, m0)), rng.integers(0, 5, size=m0).astype(np.uint32), f32(rng.random(m0) + 0.1))
        if rng.random() < 0.5:
            cp.inertia_tensors
    box = ob.freud()
    sysm = (box, p) if imgs or rng.random() < 0.6 else fr.freud.locality.AABBQuery(box, p)
    ia = idx.astype(np.uint32) if rng.random() < 0.6 else idx.tolist() if rng.random() < 0.5 else idx.astype(np.int64)
    kw = {} if masses is None else dict(masses=masses)
    cp.compute(sysm, ia, **kw)
    K = int(idx.max()) + 1
    M = np.ones(n) if masses is None else masses.astype(float)
    sizes, cm = cp.sizes, cp.cluster_masses
    cent, com, gyr, ine, rad = cp.centers, cp.centers_of_mass, cp.gyrations, cp.inertia_tensors, cp.radii_of_gyration
    mon.check(sizes.shape == (K,) and cm.shape == (K,) and cent.shape == (K, 3) and com.shape == (K, 3) and gyr.shape == (K, 3, 3) and ine.shape == (K, 3, 3)
              and rad.shape == (K,), "one entry per cluster index")
    mon.equal(np.asarray(sizes).astype(int), np.bincount(idx, minlength=K), "sizes")
    su = 1e-7 * n if n > 200 else 0        # rounding of long single-precision sums
    mon.close(cm, np.bincount(idx, weights=M, minlength=K), "cluster_masses", rtol=1e-5 + su, atol=1e-6)
    P = p.astype(float)
    F = ob.frac(P)
    multi = 0
    for c in range(K):
        sel = np.flatnonzero(idx == c)
        if not len(sel):
            continue
        m = M[sel]
        ph = np.exp(2j * np.pi * F[sel][:, : ob.d])
        good = True
        for which, got, w in (("geometric center", cent[c], np.ones(len(sel))), ("mass center", com[c], m)):
            z = (w[:, None] * ph).sum(0) / w.sum()
            R = np.abs(z).min()
            if R < 0.1:
                good = False
                continue
            f = np.zeros(3)
            f[: ob.d] = np.angle(z) / (2 * np.pi)
            want = f @ ob.M.T + ob.origin
            fe = (2e-6 * (1 + np.abs(F[sel]).max()) + su) / R
            tol = fe * ob.scale() * 2 + ob.tol(P[sel]) * 2
            e = ob.wrap(got.astype(float) - want)
            mon.check(np.linalg.norm(e) < tol, "%s of cluster %d: %s, circular mean %s" % (which, c, got, want), members=P[sel], masses=m)
            fg = ob.frac(got)[: ob.d]
            mon.check(np.all((fg > -1e-4) & (fg < 1 + 1e-4)), "%s lies in the box" % which, frac=fg)
            if which[0] == "g":
                g0, gt = want, tol
            else:
                c0, ct = want, tol
            if place in ("compact", "coincident", "rod"):
                # plain mean of the connected cluster
                pm = (w[:, None] * (C[c] + off[sel])).sum(0) / w.sum()
                x = 2 * np.pi * np.abs(ob.frac(C[c] + off[sel]) - ob.frac(pm))[:, : ob.d].max()      # phase spread
                lim = ob.scale() * x ** 3 / 12 * (4 if len(sel) > 1 else 0) + tol + ob.tol(P[sel])
                mon.check(np.linalg.norm(ob.wrap(got.astype(float) - pm)) < lim, "%s of compact cluster %d: %s, plain mean %s" % (which, c, got, pm), spread=x)
        if not good:
            mon.event("ill_conditioned")
            continue
        dg = ob.wrap(P[sel] - g0)
        dm = ob.wrap(P[sel] - c0)
        if ob.near_face(P[sel] - g0, 4 * gt).any() or ob.near_face(P[sel] - c0, 4 * ct).any():
            mon.event("half_box_spread")
            continue
        rg = np.abs(dg).max()
        rm = np.abs(dm).max()
        S = np.einsum("na,nb->ab", dg, dg) / len(sel)
        mon.close(gyr[c], S, "gyration tensor of cluster %d" % c, atol=4 * (rg * gt + gt * gt) + (1e-6 + su) * rg * rg, rtol=1e-5 + su, members=P[sel])
        I = (m * (dm ** 2).sum(1)).sum() * np.eye(3) - np.einsum("n,na,nb->ab", m, dm, dm)
        ta = m.sum() * (8 * (rm * ct + ct * ct) + (2e-6 + 2 * su) * rm * rm)
        mon.close(ine[c], I, "inertia tensor of cluster %d" % c, atol=ta, rtol=1e-5 + su, members=P[sel], masses=m)
        rr2 = (m * (dm ** 2).sum(1)).sum() / m.sum()
        mon.check(abs(rad[c] ** 2 - rr2) <= 2 * ta / m.sum() + (1e-5 + su) * rr2, "radius of gyration of cluster %d: %r, expected %r" % (c, rad[c].item(), np.sqrt(rr2)))
        mon.event("clusters_judged")
        if len(sel) > 1:
            multi += 1
            mon.event("multi_point")
            if np.any(np.abs(P[sel] - P[sel[0]] - ob.wrap(P[sel] - P[sel[0]])).max() > 0.1 * h):
                mon.event("crossing_faces")
    # other order
    if rng.random() < 0.3:
        o = rng.permutation(n)
        c2 = fr.freud.cluster.ClusterProperties()
        c2.compute((box, p[o]), idx[o].astype(np.uint32), *([] if masses is None else [masses[o]]))
        mon.equal(c2.sizes, sizes, "sizes do not depend on the order of points")
        mon.close(c2.cluster_masses, cm, "masses do not depend on the order of points", rtol=1e-5 + su)
    if rng.random() < 0.03 and n > 1:
        mon.raises(Exception, lambda: cp.compute((box, p), idx[:-1].astype(np.uint32)), "cluster_idx of wrong length")
        mon.raises(Exception, lambda: cp.compute((box, p), idx.astype(np.uint32), f32(np.ones(n + 1))), "masses of wrong length")
    if multi:
        mon.sig(ob.key(), masses is not None, K, int(np.log2(n)), place, imgs)

"""LocalDescriptors against spherical harmonics of the rotated bonds (full build: fsph stand-in, Eigen)."""
import warnings
import numpy as np
from vf import fr, geo, nb, hist, sph
from vf.geo import f32

PHASES = dict(quick=[dict(variant="rel", dirs=["environment", "locality"], full=True, cases=30000, cap=70)],
              thorough=[dict(variant="rel", dirs=["environment", "locality"], full=True, cases=400000, cap=800)])
RULE = ("random systems (2D and 3D, triclinic) x neighbor specifications (ball, k nearest, lists with arbitrary vectors, all pairs) x points only or separate query points (fewer, as many, more than points) x mode "
        "(global, particle_local, neighborhood) x l_max 0-8 x negative_m x max_num_neighbors; every row compared with double-precision harmonics of the bond in the documented frame, frames of neighborhoods up to the signs "
        "of their axes, inner products of rows with the addition theorem, rows beyond the limit empty; one object reused, results kept; non-trivial = at least one row compared; distinct by (mode, box class, spec, limit, negative_m, l_max)")
REQUIRED = dict(rows=60000, global_rows=20000, local_rows=15000, neighborhood_rows=10000, beyond_limit=2000, addition=30000, more_queries=800, degenerate=500, kept=1000)
ASSUMPTIONS = ["fsph is replaced by a stand-in (shim/ext/fsph) with its conventions: no Condon-Shortley phase for m > 0, order 0..l, -1..-l",
               "frames whose moments of inertia are closer than 2% of their sum are judged through inner products only", "bonds of length zero are not judged", "in particle_local mode orientation i is that of query point i"]


def columns(lmax, neg, v):
    """Rows of harmonics in fsph's order and phase, and their errors."""
    Y = sph.ylm_of(lmax, v)
    out, tol = [], []
    for l in range(lmax + 1):
        y = Y[l].copy()
        m = np.arange(l + 1)
        y[:, : l + 1] *= (-1.0) ** m
        y = y if neg else y[:, : l + 1]
        out.append(y)
        tol.append(np.repeat(sph.ylm_tol(l, v)[:, None], y.shape[1], 1))
    return np.concatenate(out, 1), np.concatenate(tol, 1)


def grad(lmax):
    return np.sqrt(lmax * (lmax + 1) * (2 * lmax + 1) / (4 * np.pi)) + 0.3


def legendre(l, x):
    c = np.zeros(l + 1)
    c[l] = 1
    return np.polynomial.legendre.legval(x, c)


def case(i, rng, mon):
    L = fr.freud.locality
    mode = ("global", "particle_local", "neighborhood")[int(rng.integers(3))]
    lmax = int(rng.integers(0, 9))
    neg = bool(rng.random() < 0.6)
    LD = fr.freud.environment.LocalDescriptors
    ld = LD(lmax, neg, mode) if rng.random() < 0.5 else LD(lmax, negative_m=neg, mode=mode)
    mon.check((ld.l_max, ld.negative_m, ld.mode) == (lmax, neg, mode), "parameters")
    kept = None
    for step in range(int(rng.choice([1, 1, 2, 3]))):
        ob, p, q, _, pm = nb.rand_system(rng, nmax=30, qmax=45)
        n, nq = len(p), len(p) if q is None else len(q)
        box = ob.freud()
        k = ("list", "ball", "nearest", "stored", "pairs")[int(rng.integers(5))]
        Q = p if q is None else q
        if k == "list":
            m = int(rng.integers(0, 6 * nq + 1))
            a, b = np.sort(rng.integers(0, nq, size=m)), rng.integers(0, n, size=m)
            arg = nl = L.NeighborList.from_arrays(nq, n, a.astype(np.uint32), b.astype(np.uint32), hist.rand_vectors(rng, m, ob, exact=rng.random() < 0.4))
        elif k == "pairs" and n * nq <= 900:
            arg = nl = L.NeighborList.all_pairs((box, p), q, exclude_ii=q is None)
        else:
            spec = dict(num_neighbors=int(rng.integers(1, 10))) if k == "nearest" else dict(r_max=float(np.float32(ob.rlim() * rng.uniform(0.2, 0.97))))
            if rng.random() < 0.8:
                spec["exclude_ii"] = q is None
            full = dict(exclude_ii=q is None)
            full.update(spec)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                nl = L.AABBQuery(box, p).query(Q, full).toNeighborList()
            arg = nl if k == "stored" else spec
        bi, bj, dist, bv, _ = nb.nlist_cols(nl)
        bv = bv.astype(float)
        nbond = len(bi)
        limit = int(rng.choice([0, 0, 1, 2, 4, 100]))
        ori = geo.random_quats(rng, nq)
        kw = {}
        if mode == "particle_local" or rng.random() < 0.2:
            kw["orientations"] = ori if rng.random() < 0.7 else ori.tolist()
        if limit or rng.random() < 0.3:
            kw["max_num_neighbors"] = limit
        mon.describe(mode=mode, l_max=lmax, negative_m=neg, box=ob.params(), points=p, query_points=q, neighbors=arg if isinstance(arg, dict) else "list", bonds=np.stack([bi, bj], 1), vectors=bv, limit=limit, orientations=ori, step=step)
        sysm = (box, p) if rng.random() < 0.6 else L.AABBQuery(box, p)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mon.check(ld.compute(sysm, q, neighbors=arg, **kw) is ld, "compute returns the object")
        if kept is not None:
            mon.equal(kept[0], kept[1], "earlier rows are kept")
            mon.event("kept")
        S = ld.sph
        W = (lmax + 1) ** 2 if neg else (lmax + 1) * (lmax + 2) // 2
        mon.equal(S.shape, (nbond, W), "one row per bond, one column per harmonic")
        mon.check(ld.num_sphs == nbond, "num_sphs is the number of bonds", got=ld.num_sphs, want=nbond)
        gi, gj, _, gv, _ = nb.nlist_cols(ld.nlist)
        mon.equal(np.stack([gi, gj], 1), np.stack([bi, bj], 1), "nlist holds the bonds")
        mon.close(gv, bv, "nlist holds the bond vectors", atol=ob.tol(p, Q), rtol=0)
        kept = (S, np.array(S))
        # rank of a bond among those of its query point
        first = np.searchsorted(bi, np.arange(nq))
        rank = np.arange(nbond) - first[bi]
        used = (rank < limit) if limit else np.ones(nbond, bool)
        mon.check(not S[~used].any(), "rows beyond max_num_neighbors are not set", rows=np.flatnonzero(~used)[:5])
        mon.event("beyond_limit", int((~used).sum()))
        mon.check(np.all(np.isfinite(S)), "harmonics are finite", rows=np.flatnonzero(~np.isfinite(S).all(1))[:5])
        nz = dist > 1e-4 * max(float(dist.max()) if nbond else 0, 1e-6)
        ok = used & nz
        if mode != "neighborhood":
            u = bv if mode == "global" else geo.qrot(geo.qconj(ori[bi]), bv)
            want, tol = columns(lmax, neg, u)
            if mode == "particle_local":
                tol = tol + 2e-6 * grad(lmax)
                # near the poles the polar angle of the rotated bond is known to sqrt(eps) only
                s = np.hypot(u[:, 0], u[:, 1]) / np.maximum(np.linalg.norm(u, axis=1), 1e-30)
                tol = tol + grad(lmax) * np.where(s < 1e-3, 1.5e-3, 4e-7 / np.maximum(s, 1e-3))[:, None]
            e = np.abs(S - want)
            bad = ok & (e > tol).any(1)
            if bad.any():
                x = int(np.flatnonzero(bad)[0])
                mon.check(False, "row %d (bond %d-%d) differs by %g from the harmonics of its bond" % (x, bi[x], bj[x], e[x].max()), got=S[x], want=want[x], vector=bv[x], tolerance=tol[x])
            mon.event("rows", int(ok.sum()))
            mon.event("global_rows" if mode == "global" else "local_rows", int(ok.sum()))
        else:
            for c in np.unique(bi):
                m = np.flatnonzero((bi == c) & used)
                if not len(m):
                    continue
                v = bv[m]
                I = (v * v).sum() * np.eye(3) - v.T @ v
                w, E = np.linalg.eigh(I)
                gap = np.diff(w).min() / max(w.sum(), 1e-30)
                mm = nz[m]
                if gap < 0.02 or not mm.any():
                    mon.event("degenerate")
                    continue
                loc = v @ E                      # coordinates along the axes
                best = None
                e_ax = 1e-6 / gap
                for sg in range(8):
                    s = np.array([1 - 2 * (sg & 1), 1 - (sg & 2), 1 - (sg & 4) // 2])
                    u = loc * s
                    want, tol = columns(lmax, neg, u)
                    sn = np.hypot(u[:, 0], u[:, 1]) / np.maximum(np.linalg.norm(u, axis=1), 1e-30)
                    tol = tol + grad(lmax) * (e_ax + np.where(sn < 1e-3, 1.5e-3, 4e-7 / np.maximum(sn, 1e-3)))[:, None]
                    r = (np.abs(S[m] - want) / tol)[mm].max()
                    if best is None or r < best[0]:
                        best = (r, want)
                    if r <= 1:
                        break
                mon.check(best[0] <= 1, "the rows of a point are the harmonics of its bonds along its principal axes, for some signs of the axes", point=int(c), vectors=v, got=S[m], want=best[1], moments=w, ratio=best[0])
                mon.event("rows", int(mm.sum()))
                mon.event("neighborhood_rows", int(mm.sum()))
        if neg and ok.any():
            # inner products of rows do not depend on the frame
            r = np.flatnonzero(ok)
            a = r[rng.integers(0, len(r), size=min(60, 3 * len(r)))]
            b = a.copy()
            if mode != "global":
                for t in range(len(a)):
                    g = r[bi[r] == bi[a[t]]]
                    b[t] = g[int(rng.integers(len(g)))]
            else:
                b = r[rng.integers(0, len(r), size=len(a))]
            ua, ub = (bv[x] / np.linalg.norm(bv[x], axis=1, keepdims=True) for x in (a, b))
            cg = np.clip((ua * ub).sum(1), -1, 1)
            o = 0
            for l in range(lmax + 1):
                got = (S[a, o:o + 2 * l + 1] * np.conj(S[b, o:o + 2 * l + 1])).sum(1)
                want = (2 * l + 1) / (4 * np.pi) * legendre(l, cg)
                o += 2 * l + 1
                if l <= 4 or rng.random() < 0.5:
                    mon.check(np.all(np.abs(got - want) <= 6e-3 * (l + 1) ** 2 * (1 if mode != "global" else 0.3)), "inner products of rows follow the addition theorem", l=l, got=got, want=want)
                    mon.event("addition", len(a))
        if nq > n:
            mon.event("more_queries")
        if ok.any():
            mon.sig(mode, ob.key(), k, limit > 0, neg, lmax, q is not None)
    if rng.random() < 0.03:
        mon.raises(ValueError, lambda: LD(3, mode="other"), "unknown mode")
        mon.raises((TypeError, ValueError), lambda: LD(-1), "negative l_max")
        if mode == "particle_local":
            mon.raises(RuntimeError, lambda: ld.compute(sysm, q, neighbors=arg), "particle_local without orientations")
            mon.raises(ValueError, lambda: ld.compute(sysm, q, orientations=np.concatenate([ori, ori]), neighbors=arg), "orientations of the wrong number")

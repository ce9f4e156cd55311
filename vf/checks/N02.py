"""k-nearest-neighbor queries against a brute-force double-precision oracle."""
import numpy as np
from vf import fr, geo, nb

PHASES = dict(quick=[dict(variant="rel", dirs=[], cases=6000, cap=70)], thorough=[dict(variant="rel", dirs=[], cases=300000, cap=850)])
RULE = ("random boxes/points/query points x finders (AABB, LinkCell with any cell width, raw) x k, r_min, r_max, r_guess, scale, exclude_ii; judged per query "
        "point against brute force whenever the k-th neighbor is below half the smallest plane distance (AABB and raw finders in untilted boxes: always); non-trivial = at least one query point judged with k>=1 "
        "neighbors; distinct by (finder, box class, point mode, k, which limits and heuristics were given)")
REQUIRED = dict(query_points_judged_in_large_systems=10000, query_points_judged=5000, beyond_half_the_box=1000)
ASSUMPTIONS = ["query points whose k-th neighbor is farther than half the smallest plane distance are not judged for completeness, except for AABB and raw finders in untilted boxes"]


def large(rng, mon):
    """Thousands of points, against a k-d tree over points and images."""
    L = fr.freud.locality
    ob, p, q, tol, mode = nb.rand_system(rng, huge=1)
    box = ob.freud()
    qq = p if q is None else q
    k = int(rng.integers(1, max(2, min(40, 4e5 / len(qq)))))
    rho = len(p) / ob.volume
    reach = float(min(0.99 * ob.rlim(), 2.5 * (k / rho / (np.pi if ob.is2D else 4.19)) ** (1 / ob.d) + 0.5 * rho ** (-1 / ob.d)))
    kind = ("AABB", "LinkCell", "raw")[int(rng.integers(3))]
    w = float(reach * np.exp(rng.uniform(-1, 0.5)))
    w = min(max(w, (ob.volume / 1e5) ** (1 / ob.d)), 0.999 * ob.rlim())
    nq = dict(AABB=L.AABBQuery, LinkCell=lambda b, x: L.LinkCell(b, x, cell_width=w), raw=lambda b, x: L.NeighborQuery.from_system((b, x)))[kind](box, p)
    if kind == "LinkCell":
        qq = nb.affordable(ob, p, qq, w, reach)
    excl = bool(rng.random() < 0.6)
    args = dict(num_neighbors=k, exclude_ii=excl)
    if rng.random() < 0.4:
        args["r_guess"] = float(np.float32(reach * np.exp(rng.uniform(-3, 0))))
    if kind != "LinkCell" and rng.random() < 0.3:      # (cell lists that do not find k go through all shells)
        args["r_max"] = float(np.float32(reach * rng.uniform(0.2, 0.9)))
    what = "%s.query(%s), %d points" % (kind, args, len(p))
    mon.describe(box=ob.params(), points=p, query_points=qq, finder=kind, mode=mode, args=args)
    by_d = bool(rng.random() < 0.5)
    nl = nq.query(qq, args).toNeighborList(sort_by_distance=by_d)
    bi, bj, bd, bv, bw = nb.nlist_cols(nl)
    nb.check_table(mon, what, nl, len(qq), len(p), by_distance=by_d)
    near = bd < ob.rlim() - tol
    nb.check_sparse_columns(mon, what, ob, qq, p, bi[near], bj[near], bd[near], bv[near], bw[near], 2 * tol)
    mon.check(not excl or np.all(bi != bj), what + ": a point is its own neighbor")
    mon.check(len(np.unique(bi * len(p) + bj)) == len(bi), what + ": point returned more than once for a query point")
    D, J = nb.Ghosts(ob, p, reach).nearest(qq, k + 1)
    if excl:
        own = J == np.arange(len(qq))[:, None]
        D = np.sort(np.where(own, np.inf, D), axis=1)
    D = D[:, :k]
    judged = D[:, -1] < reach - tol
    if "r_max" in args:
        judged &= np.abs(D - args["r_max"]).min(1) > tol
        judged |= D[:, 0] > args["r_max"] + tol
        D = np.where(D < args["r_max"], D, np.inf)
    cnt = np.bincount(bi, minlength=len(qq))
    mon.equal(cnt[judged], np.isfinite(D).sum(1)[judged], what + ": number of neighbors")
    o = np.lexsort([bd, bi])
    got = np.full((len(qq), k), np.inf)
    rank = np.arange(len(bi)) - np.repeat(np.cumsum(cnt) - cnt, cnt)
    ok = rank < k
    got[bi[o][ok], rank[ok]] = bd[o][ok]
    mon.close(got[judged], D[judged], what + ": the nearest distances", atol=2 * tol)
    mon.event("query_points_judged_in_large_systems", int(judged.sum()))
    mon.sig("large", kind, ob.key(), int(np.log2(len(p))), k, sorted(args))


def case(i, rng, mon):
    if rng.random() < 0.004:
        return large(rng, mon)
    ob, p, q, tol, mode = nb.rand_system(rng, nmax=150 if i % 16 else 600, qmax=60)
    box = ob.freud()
    kind, nq = nb.finder(rng, box, p, kinds=("AABB", "AABB", "LinkCell", "LinkCellW", "raw"), ob=ob)
    qq = p if q is None else q
    if kind.startswith("LinkCell") and rng.random() < 0.3 and tol:
        p2 = ob.shifted(rng, p, 2)
        qq = ob.shifted(rng, qq, 2)
        L = fr.freud.locality
        nq = L.LinkCell(box, p2, cell_width=float(nq.cell_width))
        tol = 3 * ob.tol(p2, qq)
        p = p2
        mode += "+images"
    V, D = geo.pair_table(ob, qq, p)
    amb = ob.near_face(p.astype(float)[None] - qq.astype(float)[:, None], max(tol, 1e-9) * 2)
    # search trees go on beyond half the box; with at most one image in each direction that is exact for untilted boxes
    far = kind in ("AABB", "raw") and not (ob.xy or ob.xz or ob.yz) and rng.random() < 0.6
    rlim = 1e6 if far else ob.rlim()
    reach = 1.2 * max(ob.L[: ob.d]) if far else rlim
    mon.describe(box=ob.params(), points=p, query_points=qq, finder=kind, mode=mode)
    for rep in range(int(rng.integers(1, 4))):
        # a k for which a good part of the query points is decided
        inside = np.sort((D < rlim).sum(1))
        kmax = max(1, int(inside[len(inside) // 2]))
        r = rng.random()
        k = int(rng.integers(1, min(kmax, 30) + 1)) if r < 0.8 else int(rng.integers(1, 7)) if r < 0.95 else min(len(p) + 2, 40)
        args = dict(num_neighbors=k)
        opts = ""
        r_max = np.inf
        r_min = 0.0
        if rng.random() < 0.4:
            r_max = float(np.float32(reach * rng.uniform(0.1, 0.98)))
            if mode == "exact":
                r_max = max(0.25, float(np.floor(r_max * 4) / 4))
                if r_max >= rlim:
                    r_max = rlim - 0.125
            args["r_max"] = r_max
            opts += "M"
        if rng.random() < 0.3:
            r_min = float(np.float32(min(r_max, reach) * rng.uniform(0.02, 0.7)))
            if mode == "exact":
                r_min = float(np.floor(r_min * 4) / 4)
            args["r_min"] = r_min
            opts += "m"
        if rng.random() < 0.5:
            args["r_guess"] = float(np.float32(reach * np.exp(rng.uniform(-5, 0))))
            opts += "g"
        if rng.random() < 0.4:
            args["scale"] = float(np.float32(rng.choice([1.01, 1.05, 1.5, 2.0, 4.0])))
            opts += "s"
        excl = False
        if rng.random() < 0.6:
            excl = bool(rng.random() < 0.6)
            args["exclude_ii"] = excl
            opts += "x" if excl else "i"
        if rng.random() < 0.3:
            args["mode"] = "nearest"
        mon.describe(args=args)
        what = "%s.query(%s)" % (kind, args)
        res = nq.query(qq, args)
        how = int(rng.integers(3))
        if how == 0:
            bonds = list(res)
            bi = np.array([b[0] for b in bonds], dtype=int)
            bj = np.array([b[1] for b in bonds], dtype=int)
            bd = np.array([b[2] for b in bonds])
            bv = bw = None
        else:
            nl = res.toNeighborList(sort_by_distance=how == 2)
            bi, bj, bd, bv, bw = nb.nlist_cols(nl)
            nb.check_table(mon, what, nl, len(qq), len(p), by_distance=how == 2)
        near = D[bi, bj] < rlim - tol
        nb.check_columns(mon, what, bi[near], bj[near], bd[near], None if bv is None else bv[near], None if bw is None else bw[near], V, D, tol * 2, amb)
        judged = nb.check_knn(mon, what, bi, bj, D, k, tol, r_min, r_max, excl, rlim)
        mon.event("query_points_judged", judged)
        mon.event("bonds", len(bi))
        mon.event("queries")
        mon.event("beyond_half_the_box", judged if far and (D[bi, bj] > ob.rlim() + tol).any() else 0)
        if judged and len(bi):
            mon.sig(kind, ob.key(), mode, min(k, 16), opts)

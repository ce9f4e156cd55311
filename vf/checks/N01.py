"""Ball queries against a brute-force double-precision pair oracle."""
import numpy as np
from vf import fr, geo, nb

PHASES = dict(quick=[dict(variant="rel", dirs=[], cases=10000, cap=70)], thorough=[dict(variant="rel", dirs=[], cases=400000, cap=850)])
RULE = ("random boxes/points/query points x 5 finders x r_min/r_max/exclude_ii, several queries per finder; results judged pair by pair against brute force "
        "(exact dyadic grids: no tolerance at cutoffs); non-trivial = at least one pair within the cutoff; distinct by (finder, box class, point mode, "
        "r_min?, exclude, query set kind, log2 pairs)")
REQUIRED = dict(pairs=10000, ties_at_cutoff=50, pairs_in_large_systems=100000)
ASSUMPTIONS = ["points and query points inside the box (LinkCell: any image)", "pairs within single-precision rounding of r_min/r_max may fall on either side"]


def large(rng, mon):
    """Thousands of points: every pair against a k-d tree over points and images."""
    L = fr.freud.locality
    ob, p, q, tol, mode = nb.rand_system(rng, huge=1)
    box = ob.freud()
    qq = p if q is None else q
    rho = len(p) / ob.volume
    mean = float(np.exp(rng.uniform(0, np.log(max(1.5, min(60, 1e6 / len(qq)))))))
    r_max = float(np.float32(min(0.98 * ob.rlim(), (mean / rho / (np.pi if ob.is2D else 4.19)) ** (1 / ob.d))))
    r_min = float(np.float32(r_max * rng.uniform(0, 0.9))) if rng.random() < 0.3 else 0.0
    kind = ("AABB", "LinkCell", "LinkCellW", "CellQuery", "raw")[int(rng.integers(5))]
    if kind == "LinkCell" and 2 * np.cbrt(ob.volume / max(len(p) // 10, 1)) > 0.95 * 2 * ob.rlim():
        kind = "LinkCellW"
    if kind == "LinkCellW":
        w = float(min(0.999 * ob.rlim(), r_max * np.exp(rng.uniform(-0.7, 1.5))))
        nq = L.LinkCell(box, p, cell_width=max(w, (ob.volume / 1e5) ** (1 / ob.d) if ob.rlim() > (ob.volume / 1e5) ** (1 / ob.d) else 0.999 * ob.rlim()))
    else:
        nq = dict(AABB=L.AABBQuery, LinkCell=L.LinkCell, CellQuery=L.CellQuery, raw=lambda b, x: L.NeighborQuery.from_system((b, x)))[kind](box, p)
    if kind not in ("AABB", "raw"):
        qq = nb.affordable(ob, p, qq, r_max if kind == "CellQuery" else float(nq.cell_width), r_max)
    excl = bool(rng.random() < 0.5)
    args = dict(r_max=r_max, r_min=r_min, exclude_ii=excl)
    what = "%s.query(%s), %d points" % (kind, args, len(p))
    mon.describe(box=ob.params(), points=p, query_points=qq, finder=kind, mode=mode, args=args)
    by_d = bool(rng.random() < 0.5)
    nl = nq.query(qq, args).toNeighborList(sort_by_distance=by_d)
    bi, bj, bd, bv, bw = nb.nlist_cols(nl)
    nb.check_sparse_columns(mon, what, ob, qq, p, bi, bj, bd, bv, bw, 2 * tol)
    nb.check_table(mon, what, nl, len(qq), len(p), by_distance=by_d)
    oi, oj, od = nb.Ghosts(ob, p, r_max + tol).ball(qq, r_max + tol)
    may = (od >= r_min - tol) & ~(excl & (oi == oj))
    must = may & (od < r_max - tol) & ((od >= r_min + tol) | (r_min == 0))
    got, code = np.sort(bi * len(p) + bj), oi * len(p) + oj
    mon.check(np.all(np.diff(got) > 0), what + ": pair returned more than once")
    lost = code[must][~np.isin(code[must], got)]
    mon.check(len(lost) == 0, what + ": %d pairs missing" % len(lost), first=[divmod(int(x), len(p)) for x in lost[:3]])
    extra = got[~np.isin(got, code[may])]
    mon.check(len(extra) == 0, what + ": %d pairs should not be returned" % len(extra), first=[divmod(int(x), len(p)) for x in extra[:3]])
    mon.event("pairs_in_large_systems", int(must.sum()))
    mon.sig("large", kind, ob.key(), int(np.log2(len(p))), int(np.log2(1 + must.sum())))


def case(i, rng, mon):
    if rng.random() < 0.004:
        return large(rng, mon)
    ob, p, q, tol, mode = nb.rand_system(rng, nmax=120 if i % 16 else 700)
    box = ob.freud()
    kind, nq = nb.finder(rng, box, p, ob=ob)
    qq = p if q is None else q
    if kind.startswith("LinkCell") and rng.random() < 0.35 and tol:
        # cell lists accept points in any image
        p2 = ob.shifted(rng, p, 2)
        qq = ob.shifted(rng, qq, 2)
        L = fr.freud.locality
        nq = L.LinkCell(box, p2) if kind == "LinkCell" else L.LinkCell(box, p2, cell_width=float(nq.cell_width))
        tol = 3 * ob.tol(p2, qq)
        p = p2
        mode += "+images"
    V, D = geo.pair_table(ob, qq, p)
    amb = ob.near_face(p.astype(float)[None] - qq.astype(float)[:, None], max(tol, 1e-9) * 2)
    mon.describe(box=ob.params(), points=p, query_points=qq, finder=kind, mode=mode)
    rlim = ob.rlim()
    for rep in range(int(rng.integers(1, 4))):
        r_max = rlim * (0.999 if rng.random() < 0.2 else float(rng.uniform(0.02, 0.99)) if rng.random() < 0.8 else float(np.exp(rng.uniform(-6, -1))))
        if mode == "exact":
            r_max = max(0.25, np.floor(r_max * 4) / 4)
            if r_max >= rlim:
                r_max = rlim - 0.125
        if kind == "CellQuery":     # its cells are as wide as the cutoff
            r_max = max(r_max, min((ob.M.sum(0).max() ** ob.d / (2e4 if i % 8 else 3e5)) ** (1 / ob.d), 0.5 * rlim))
        r_max = float(np.float32(r_max))
        r_min = 0.0
        if rng.random() < 0.35:
            r_min = r_max * float(rng.uniform(0, 0.95))
            if mode == "exact":
                r_min = np.floor(r_min * 4) / 4
            r_min = float(np.float32(r_min))
        args = dict(r_max=r_max)
        if r_min or rng.random() < 0.2:
            args["r_min"] = r_min
        excl = False
        if rng.random() < 0.6:
            excl = bool(rng.random() < 0.6)
            args["exclude_ii"] = excl
        if rng.random() < 0.4:
            args["mode"] = "ball"
        mon.describe(args=args)
        must, may = nb.ball_sets(D, tol, r_min, r_max, excl)
        what = "%s.query(%s)" % (kind, args)
        res = nq.query(qq, args)
        how = int(rng.integers(3))
        if how == 0:
            bonds = list(res)
            bi = np.array([b[0] for b in bonds], dtype=int)
            bj = np.array([b[1] for b in bonds], dtype=int)
            bd = np.array([b[2] for b in bonds])
            nb.check_columns(mon, what, bi, bj, bd, None, None, V, D, tol * 2)
        else:
            nl = res.toNeighborList(sort_by_distance=how == 2)
            bi, bj, bd, bv, bw = nb.nlist_cols(nl)
            nb.check_columns(mon, what, bi, bj, bd, bv, bw, V, D, tol * 2, amb)
            nb.check_table(mon, what, nl, len(qq), len(p), by_distance=how == 2)
        nb.check_ball(mon, what, bi, bj, D, must, may)
        n = int(must.sum())
        mon.event("pairs", n)
        mon.event("queries")
        if mode == "exact":
            mon.event("ties_at_cutoff", int((D == r_max).sum() + (D == r_min).sum() * (r_min > 0)))
        if n:
            mon.sig(kind, ob.key(), mode, r_min > 0, excl, q is None, how, int(np.log2(n)))

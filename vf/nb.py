"""Neighbor oracles shared by the checks."""
import numpy as np
from vf import fr, geo
from vf.geo import f32


def rand_system(rng, nmax=150, exact=None, dim=None, qmax=40, separate=None, maxtilt=1.0, lo=2.0, hi=20.0, huge=0.0):
    """(ob, points, query points or None, tolerance, mode).  With probability huge: thousands of uniform points, mode "huge"
    (too many for tables of all pairs; hist.make_source then gives bonds from a neighbor query, which N01 decides)."""
    if huge and rng.random() < huge:
        ob = geo.random_box(rng, dim, maxtilt=maxtilt, lo=lo, hi=hi)
        n, m = (int(np.exp(rng.uniform(np.log(2000), np.log(70000)))) for _ in range(2))
        p = geo.points(rng, ob, n, "huge")
        q = geo.points(rng, ob, max(10, m // 10), "huge") if separate or (separate is None and rng.random() < 0.4) else None
        return ob, p, q, ob.tol(p), "huge"
    if exact is None:
        exact = rng.random() < 0.25
    n = geo.nonzero_n(rng, nmax)
    if separate is None:
        separate = rng.random() < 0.45
    if exact:
        ob = geo.exact_box(rng, dim)
        p = geo.exact_points(rng, ob, n, step=float(rng.choice([0.25, 0.5, 1.0])))
        q = geo.exact_points(rng, ob, geo.nonzero_n(rng, qmax), step=0.25) if separate else None
        return ob, p, q, 0.0, "exact"
    ob = geo.random_box(rng, dim, maxtilt=maxtilt, lo=lo, hi=hi)
    mode = geo.MODES[int(rng.integers(len(geo.MODES)))]
    p = geo.points(rng, ob, n, mode)
    q = None
    if separate:
        m = geo.nonzero_n(rng, qmax)
        q = geo.points(rng, ob, m)
        if rng.random() < 0.2:      # some query points coincide with points
            k = rng.integers(0, n, size=m)
            s = rng.random(m) < 0.5
            q[s] = p[k[s]]
    return ob, p, q, ob.tol(p), mode


def finder(rng, box, p, kinds=("AABB", "LinkCell", "LinkCellW", "CellQuery", "raw"), ob=None):
    L = fr.freud.locality
    k = kinds[int(rng.integers(len(kinds)))]
    if k == "AABB":
        return k, L.AABBQuery(box, p)
    if k in ("LinkCell", "LinkCellW"):
        # cell widths above half the smallest plane distance are rejected, also the default estimate
        h = ob.planes()[: ob.d].min()
        if k == "LinkCell" and 2 * np.cbrt(ob.volume / max(len(p) // 10, 1)) < 0.95 * h:
            return k, L.LinkCell(box, p)
        w = h * float(np.exp(rng.uniform(np.log(0.05), np.log(0.499))))
        if rng.random() < 0.3:
            w = 0.9999 * h / int(rng.integers(2, 7))
        w = min(max(w, (ob.volume / (300 if rng.random() < 0.9 else 8000)) ** (1 / ob.d)), 0.4999 * h)
        return "LinkCellW", L.LinkCell(box, p, cell_width=w)
    if k == "CellQuery":
        return k, L.CellQuery(box, p)
    return "raw", L.NeighborQuery.from_system((box, p))


def ball_sets(D, tol, r_min, r_max, excl):
    """(must, may) boolean matrices of the pairs in [r_min, r_max)."""
    if tol:
        must = (D < r_max - tol) & (D >= r_min + (tol if r_min > 0 else 0))
        may = (D < r_max + tol) & (D >= r_min - tol)
    else:
        must = may = (D < r_max) & (D >= r_min)
    if excl:
        must, may = must.copy(), may.copy()
        k = min(D.shape)
        must[np.arange(k), np.arange(k)] = False
        may[np.arange(k), np.arange(k)] = False
    return must, may


def check_columns(mon, what, i, j, d, v, w, V, D, tol, vec_amb=None):
    """Bond columns agree with the geometry (V, D: all displacement vectors and distances)."""
    nq, np_ = D.shape
    mon.check(len(i) == 0 or (i.min() >= 0 and i.max() < nq and j.min() >= 0 and j.max() < np_), what + ": bond indices in range", i=i, j=j)
    mon.close(d, D[i, j], what + ": distances", atol=tol + 1e-6 * (1 if not tol else 0), rtol=2e-6)
    if v is not None:
        e = np.abs(v - V[i, j]).max(axis=1) if len(i) else np.zeros(0)
        ok = e <= (tol if tol else 1e-6)
        if vec_amb is not None:
            ok |= vec_amb[i, j]
        mon.check(np.all(ok), what + ": vectors point from query point to point", got=v, want=V[i, j], ij=np.stack([i, j], 1))
    if w is not None:
        mon.check(np.all(w == 1), what + ": weights are 1", w=w)


def check_ball(mon, what, i, j, D, must, may):
    cnt = np.zeros(D.shape, dtype=int)
    np.add.at(cnt, (i, j), 1)
    if (cnt > 1).any():
        a = np.argwhere(cnt > 1)[0]
        mon.check(False, what + ": pair returned more than once", pair=a, times=cnt[tuple(a)])
    miss = must & (cnt == 0)
    if miss.any():
        a = tuple(np.argwhere(miss)[0])
        mon.check(False, what + ": pair missing", pair=a, distance=D[a], n_missing=int(miss.sum()))
    extra = (cnt > 0) & ~may
    if extra.any():
        a = tuple(np.argwhere(extra)[0])
        mon.check(False, what + ": pair should not be returned", pair=a, distance=D[a], n_extra=int(extra.sum()))
    mon.check(True, what)


def check_knn(mon, what, i, j, D, k, tol, r_min, r_max, excl, rlim):
    """Judge k-nearest results per query point wherever they are determined by distances below rlim."""
    nq, np_ = D.shape
    must, may = ball_sets(D, tol, r_min, r_max, excl)
    cnt = np.zeros(D.shape, dtype=int)
    np.add.at(cnt, (i, j), 1)
    mon.check((cnt <= 1).all(), what + ": point returned more than once for a query point", pair=np.argwhere(cnt > 1)[:1])
    judged = 0
    for a in range(nq):
        got = cnt[a] > 0
        inside = D[a] < rlim - tol
        ds = np.sort(D[a][must[a] & inside])
        full = r_max <= rlim - tol         # every admissible point is below the limit
        if len(ds) < k and not full:
            continue
        judged += 1
        n = int(got.sum())
        mon.check(not np.any(got & ~may[a]), what + ": bond outside the r_min/r_max limits", query=a, got=np.flatnonzero(got), d=D[a][got])
        lo, hi = min(k, int(must[a].sum())), min(k, int(may[a].sum()))
        mon.check(lo <= n <= hi, what + ": %d neighbors, expected %d" % (n, lo), query=a, got=np.flatnonzero(got), dist=np.sort(D[a])[:k + 2])
        if n:
            worst = D[a][got].max()
            left = must[a] & ~got
            if left.any() and n <= k:
                mon.check(D[a][left].min() >= worst - 2 * tol - 1e-6 * worst * (tol == 0) * 0, what + ": a nearer point was skipped", query=a,
                          got=np.flatnonzero(got), worst=worst, nearer=D[a][left].min())
    return judged


class Ghosts:
    """k-d tree of points and their images within reach of the box (periodic boxes): the oracle for systems too large for a pair table."""

    def __init__(self, ob, p, reach):
        from scipy.spatial import cKDTree
        w = ob.wrap(p)
        f = ob.frac(w)
        margin = reach / ob.planes()
        P, J = [], []
        for k in np.ndindex(*(3,) * ob.d):
            k = np.array(list(k) + [1] * (3 - ob.d)) - 1
            s = np.all((f + k > -margin - 1e-6)[:, : ob.d] & (f + k < 1 + margin + 1e-6)[:, : ob.d], axis=1)
            P.append(w[s] + k @ ob.M.T)
            J.append(np.flatnonzero(s))
        self.P, self.J, self.ob = np.concatenate(P), np.concatenate(J), ob
        self.tree = cKDTree(self.P)

    def ball(self, q, r):
        """All (i, j, d) with d < r, sorted by (i, j)."""
        lists = self.tree.query_ball_point(self.ob.wrap(q), r, workers=-1)
        i = np.repeat(np.arange(len(q)), [len(x) for x in lists])
        g = np.fromiter((y for x in lists for y in x), int, len(i))
        d = np.linalg.norm(self.P[g] - self.ob.wrap(q)[i], axis=1)
        o = np.lexsort([self.J[g], i])
        return i[o], self.J[g][o], d[o]

    def nearest(self, q, k):
        """(distances, indices) of the k nearest, nearest first."""
        d, g = self.tree.query(self.ob.wrap(q), k=np.arange(1, k + 1), workers=-1)
        return d, np.where(g < len(self.J), self.J[np.minimum(g, len(self.J) - 1)], -1)


def affordable(ob, p, q, width, reach, budget=2e7):
    """As many query points as cell lists of this width can serve within the budget of distance evaluations."""
    shells = (2 * np.ceil(reach / width) + 3) ** ob.d
    per = min(len(p), shells * len(p) * min(1.0, width ** ob.d / ob.volume)) + 30 * min(shells, ob.volume / width ** ob.d)
    return q[: max(1, int(budget / per))]


def check_sparse_columns(mon, what, ob, q, p, i, j, d, v, w, tol):
    """As check_columns, for bonds within half the box."""
    mon.check(len(i) == 0 or (i.min() >= 0 and i.max() < len(q) and j.min() >= 0 and j.max() < len(p)), what + ": bond indices in range")
    dv = np.asarray(v, float) - (p[j].astype(float) - q[i].astype(float))
    f = dv @ ob.Mi.T
    if ob.is2D:
        f[:, 2] = 0
    mon.check(np.all(np.abs((f - np.round(f)) @ ob.M.T) <= tol), what + ": vectors point from query point to point")
    mon.close(d, np.sqrt((np.asarray(v, float) ** 2).sum(1)), what + ": distances are the lengths of the vectors", atol=tol, rtol=2e-6)
    mon.check(np.all(w == 1), what + ": weights are 1")


def nlist_cols(nl):
    return (nl.query_point_indices.astype(int), nl.point_indices.astype(int), np.array(nl.distances), np.array(nl.vectors), np.array(nl.weights))


def check_table(mon, what, nl, nq=None, np_=None, by_distance=None):
    """Structural invariants every NeighborList has to satisfy."""
    i, j, d, v, w = nlist_cols(nl)
    n = len(nl)
    mon.check(len(i) == len(j) == len(d) == len(w) == n and v.shape == (n, 3), what + ": one entry per bond in every column")
    arr = np.asarray(nl[:])
    mon.check(arr.shape == (n, 2), what + ": index table shape")
    mon.equal(arr, np.stack([i, j], axis=1) if n else np.zeros((0, 2), int), what + ": index table")
    if nq is not None:
        mon.check(nl.num_query_points == nq and nl.num_points == np_, what + ": numbers of (query) points %s, %s; expected %s, %s" % (
            nl.num_query_points, nl.num_points, nq, np_))
    nq = nl.num_query_points
    if n:
        mon.check(i.max() < nq and j.max() < nl.num_points and i.min() >= 0 and j.min() >= 0, what + ": indices below the numbers of points")
    mon.check(np.all(np.diff(i) >= 0), what + ": sorted by query point", i=i)
    if by_distance is not None and n:
        key = d if by_distance else j
        same = np.diff(i) == 0
        mon.check(np.all(np.diff(key)[same] >= 0), what + (": sorted by distance" if by_distance else ": sorted by point index"), i=i, key=key)
    c = np.array(nl.neighbor_counts)
    s = np.array(nl.segments)
    mon.check(c.shape == (nq,) and s.shape == (nq,), what + ": segments/counts length")
    mon.equal(c, np.bincount(i, minlength=nq)[:nq] if n else np.zeros(nq, int), what + ": neighbor_counts")
    start = np.searchsorted(i, np.arange(nq), side="left")
    has = c > 0
    mon.equal(s[has], start[has], what + ": segments are the first bonds")
    for a in (range(nq) if nq <= 6 else np.linspace(0, nq - 1, 6).astype(int)):
        mon.check(nl.find_first_index(int(a)) == start[a], what + ": find_first_index(%d) = %d, expected %d" % (a, nl.find_first_index(int(a)), start[a]))

"""Bond sources and histogram oracles shared by the checks of bond-histogram analyses."""
import itertools
import numpy as np
from vf import fr, geo, nb
from vf.geo import f32


class Bonds:
    """What a compute call should see: bonds (query i, point j, distance, vector, weight); tol bounds
    the error of each displacement component, sure says whether the bond has to be there."""

    def __init__(self, i, j, d, v, w, tol, sure, amb=None):
        self.i, self.j, self.d, self.v, self.w = i, j, d, v, w
        self.tol, self.sure = tol, sure
        # vec_ok: the displacement vector is determined (no tie between periodic images)
        self.vec_ok = np.ones(len(i), bool) if amb is None else ~amb


class Source:
    """A system, optional query points and a neighbor specification."""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def system(self, rng=None):
        L = fr.freud.locality
        k = 0 if rng is None else int(rng.integers(4))
        self.sys_kind = ("tuple", "AABB", "LinkCell", "raw")[k]
        if k == 1:
            return L.AABBQuery(self.box, self.p)
        if k == 2 and self.kind != "dict":
            h = self.ob.planes()[: self.ob.d].min()
            return L.LinkCell(self.box, self.p, cell_width=0.45 * h)
        if k == 3:
            return L.NeighborQuery.from_system((self.box, self.p))
        return (self.box, self.p)

    @property
    def qq(self):
        return self.p if self.q is None else self.q


def huge_r(ob, n):
    """A cutoff that gives about eight neighbors."""
    v = ob.volume * 8 / n
    return float(np.float32(min(0.95 * ob.rlim(), np.sqrt(v / np.pi) if ob.is2D else np.cbrt(v * 3 / (4 * np.pi)))))


def some(rng, p, few, many):
    """few, or with probability p something up to many."""
    return few if rng.random() >= p else int(np.exp(rng.uniform(np.log(few + 1), np.log(many))))


def make_source(rng, dim=None, nmax=60, qmax=30, kinds=("default", "dict", "nlist", "query"), default_r=None, exact=None, separate=None,
                minpts=1, maxtilt=1.0, system=None, huge=0.0):
    """default_r(ob) gives the r_max the compute class uses by default (float32)."""
    if system is None:
        while True:
            ob, p, q, tol, mode = nb.rand_system(rng, nmax=nmax, qmax=qmax, dim=dim, exact=exact, separate=separate, maxtilt=maxtilt, huge=huge)
            if len(p) >= minpts:
                break
    else:
        ob, p, q, tol, mode = system
    box = ob.freud()
    kind = kinds[int(rng.integers(len(kinds)))]
    if mode == "huge":
        kind = "query"
    s = Source(ob=ob, box=box, p=p, q=q, tol=tol, mode=mode, kind=kind)
    qq = s.qq
    nq, np_ = len(qq), len(p)
    if kind == "nlist":
        m = int(rng.integers(0, 80)) if rng.random() < 0.9 else 0 if rng.random() < 0.8 else int(np.exp(rng.uniform(np.log(80), np.log(20000))))
        i = np.sort(rng.integers(0, nq, size=m)).astype(np.uint32)
        if rng.random() < 0.3 and m:
            i = np.sort(rng.choice(rng.permutation(nq)[: max(1, nq // 2)], size=m)).astype(np.uint32)
        j = rng.integers(0, np_, size=m).astype(np.uint32)
        v = rand_vectors(rng, m, ob, exact=mode == "exact")
        w = f32(rng.uniform(0.1, 2, size=m)) if rng.random() < 0.6 else None
        if w is not None and m and rng.random() < 0.2:
            w[rng.random(m) < 0.5] = 0
        a = (nq, np_, i, j, v)
        s.neighbors = fr.freud.locality.NeighborList.from_arrays(*a) if w is None else fr.freud.locality.NeighborList.from_arrays(*a, weights=w)
        V = v.astype(float)
        s.bonds = Bonds(i.astype(int), j.astype(int), np.sqrt((V ** 2).sum(1)), V, np.ones(m) if w is None else w.astype(float), 0.0, np.ones(m, bool))
        return s
    if kind == "query":
        r_max = float(np.float32(ob.rlim() * rng.uniform(0.2, 0.97))) if mode != "huge" else huge_r(ob, np_)
        nl = fr.freud.locality.AABBQuery(box, p).query(qq, dict(r_max=r_max, exclude_ii=bool(rng.random() < 0.5))).toNeighborList(bool(rng.random() < 0.3))
        i, j, d, v, w = nb.nlist_cols(nl)
        s.neighbors = nl
        s.bonds = Bonds(i, j, d.astype(float), v.astype(float), w.astype(float), 0.0, np.ones(len(i), bool))
        return s
    V, D = geo.pair_table(ob, qq, p)
    excl = q is None
    r_min = 0.0
    if kind == "default":
        s.neighbors = None
        r_max = float(np.float32(default_r(ob)))
    else:
        r_max = float(np.float32(ob.rlim() * rng.uniform(0.2, 0.97)))
        if mode == "exact":
            r_max = max(0.25, np.floor(r_max * 4) / 4)
            if r_max >= ob.rlim():
                r_max = ob.rlim() - 0.25
        s.neighbors = dict(r_max=r_max)
        if rng.random() < 0.3:
            r_min = float(np.float32(r_max * rng.uniform(0.1, 0.6)))
            s.neighbors["r_min"] = r_min
        if rng.random() < 0.5:
            excl = bool(rng.random() < 0.5)
            s.neighbors["exclude_ii"] = excl
        if rng.random() < 0.3:
            s.neighbors["mode"] = "ball"
    s.r_max = r_max
    must, may = nb.ball_sets(D, tol, r_min, r_max, excl)
    a = np.argwhere(may)
    i, j = a[:, 0], a[:, 1]
    amb = ob.near_face(p.astype(float)[j] - qq.astype(float)[i], max(2 * tol, 1e-9)) if len(i) else np.zeros(0, bool)
    s.bonds = Bonds(i, j, D[i, j], V[i, j], np.ones(len(i)), 2 * tol, must[i, j], amb)
    return s


def rand_vectors(rng, m, ob, exact=False):
    s = ob.L[: ob.d].min()
    if exact:
        v = rng.integers(-8, 9, size=(m, 3)) * 0.25
        if rng.random() < 0.6:      # axis-aligned: representable lengths
            v = v * (np.arange(3)[None] == rng.integers(0, ob.d, size=m)[:, None])
    else:
        v = rng.normal(size=(m, 3)) * s * rng.choice([0.1, 0.3, 0.6])
    if ob.is2D:
        v[:, 2] = 0
    v = v.astype(float)
    z = (v == 0).all(1)
    v[z, 0] = 0.25       # zero-length bonds have no direction
    return f32(v)


def digitize(x, edges):
    """Half-open bins; -1 below, nbins at or above the end."""
    return np.searchsorted(np.asarray(edges, float), x, side="right") - 1


def edge_lengths(rng, v, r_min, r_max, bins):
    """Replace some of the vectors by axis-aligned ones (whose lengths are exact) of lengths at, just below and just
    above bin edges, mostly the ends of the axis.  Returns the vectors (float32) and which were replaced."""
    v = f32(v).copy()
    m = len(v)
    sel = rng.random(m) < 0.4
    if not sel.any():
        return v, sel
    n = int(sel.sum())
    k = np.where(rng.random(n) < 0.7, bins * (rng.random(n) < 0.8), rng.integers(0, bins + 1, size=n))
    x = np.where(k == bins, np.float32(r_max), np.where(k == 0, np.float32(r_min), f32(r_min + k * (r_max - r_min) / bins))).astype(np.float32)
    for _ in range(3):
        u = rng.random(n)
        x = np.where(u < 0.4, np.nextafter(x, np.float32(0)), np.where(u < 0.5, np.nextafter(x, np.float32(np.inf)), x)).astype(np.float32)
    x = np.where(x > 1e-15, x, np.float32(r_max))
    out = np.zeros((n, 3), np.float32)
    out[np.arange(n), rng.integers(0, 2, size=n)] = x * rng.choice([-1, 1], size=n).astype(np.float32)
    v[sel] = out
    return v, sel


def check_hist(mon, what, counts, edges, coords, tols, sure, periodic=(), inside=None):
    """counts (any shape) must be the histogram of coords, entries within tols of a bin edge being free to fall
    on either side.  edges: list of bin edge arrays, coords/tols: lists of arrays per dimension.  inside (for one
    dimension): 1 / 0 where it is known exactly that the entry is inside / outside the axis, -1 elsewhere."""
    D = len(edges)
    shape = tuple(len(e) - 1 for e in edges)
    counts = np.asarray(counts)
    mon.check(counts.shape == shape, what + ": histogram shape %s, expected %s" % (counts.shape, shape))
    n = len(coords[0])
    lo, hi = [], []
    for a in range(D):
        t = np.broadcast_to(np.asarray(tols[a], float), (n,))
        lo.append(digitize(coords[a] - t, edges[a]))
        hi.append(digitize(coords[a] + t, edges[a]))
        if a in periodic:
            pass
        else:
            lo[a], hi[a] = np.clip(lo[a], -1, shape[a]), np.clip(hi[a], -1, shape[a])
    lo, hi = np.array(lo), np.array(hi)
    if inside is not None and n:
        inside = np.asarray(inside)
        lo[:, inside == 1], hi[:, inside == 1] = np.clip(lo[:, inside == 1], 0, shape[0] - 1), np.clip(hi[:, inside == 1], 0, shape[0] - 1)
        hi[:, inside == 0] = lo[:, inside == 0] = shape[0]
        mon.event("axis_end_bonds", int((inside >= 0).sum()))
    fixed = np.all(lo == hi, axis=0) if n else np.zeros(0, bool)
    def inr(k):
        return np.all([(k[a] >= 0) & (k[a] < shape[a]) for a in range(D)], axis=0)
    base = np.zeros(shape, np.int64)
    f = fixed & sure
    if n:
        g = f & inr(lo)
        np.add.at(base, tuple(lo[:, g]), 1)
    ub = np.zeros(shape, np.int64)
    lo_sum = 0
    amb = np.flatnonzero(~f) if n else []
    for b in amb:
        cells, allin = set(), True
        for c in itertools.product(*[range(int(lo[a, b]), int(hi[a, b]) + 1) for a in range(D)]):
            c = list(c)
            ok = True
            for a in range(D):
                if a in periodic:
                    c[a] %= shape[a]
                elif not 0 <= c[a] < shape[a]:
                    ok = False
            if ok:
                cells.add(tuple(c))
            else:
                allin = False
        for c in cells:
            ub[c] += 1
        if allin and sure[b]:
            lo_sum += 1
    c = counts.astype(np.int64)
    low = c < base
    if low.any():
        k = tuple(np.argwhere(low)[0])
        mon.check(False, what + ": bin %s holds %d bonds, expected at least %d" % (k, c[k], base[k]), total=c.sum(), expected_total=base.sum())
    high = c > base + ub
    if high.any():
        k = tuple(np.argwhere(high)[0])
        mon.check(False, what + ": bin %s holds %d bonds, expected at most %d" % (k, c[k], base[k] + ub[k]), total=c.sum(), expected_total=base.sum())
    mon.check(base.sum() + lo_sum <= c.sum() <= base.sum() + len(amb), what + ": %d bonds in the histogram, expected %d..%d" % (
        c.sum(), base.sum() + lo_sum, base.sum() + len(amb)))
    mon.event("bonds_binned", int(base.sum()))
    mon.event("bonds_ambiguous", len(amb))
    return base, ub


def edge_tol(edges):
    return 6e-7 * max(1e-30, float(np.abs(edges).max()))

"""Environment matching against the definition of similar environments (full build: Eigen)."""
import itertools
import warnings
import numpy as np
from vf import fr, geo, nb, hist
from vf.geo import f32
from vf.checks.C01 import components

PHASES = dict(quick=[dict(variant="rel", dirs=["environment", "locality"], full=True, cases=16000, cap=80)],
              thorough=[dict(variant="rel", dirs=["environment", "locality"], full=True, cases=300000, cap=800)])
RULE = ("systems whose environments are permuted, noisy, rotated, mirrored, shortened copies of a few templates (also empty ones and ones with bonds of a point to itself), and lattices with noise, x cluster and environment neighbors given as lists or "
        "query arguments x threshold x registration; clusters compared with the connected components of similar neighbors, labels, point and cluster environments, motif matches, and root-mean-square deviations; one object reused with other sizes; "
        "non-trivial = at least one similar and one dissimilar pair, or a motif that matches some points only; distinct by (class, kind, registration, sizes, number of clusters)")
REQUIRED = dict(similar_pairs=25000, dissimilar_pairs=15000, registered_similar=3000, registered_dissimilar=3000, clusters=10000, empty_envs=500, motif_matches=3000, motif_misses=3000, rmsds=3000, reused=1500, mirrored=100, mappings=1500)
ASSUMPTIONS = ["environment and motif vectors lie inside the box (motifs are wrapped into it)", "two environments are judged similar (dissimilar) only if every pairing within the threshold is unique (there is none); with registration, similar only for exact rotated copies, dissimilar only when the lengths or, for lengths that fix the pairing, the best rotation rule it out",
               "sets of vectors with three collinear ones are not used with registration"]


def kabsch(a, b):
    """Smallest RMSD of a and R b over rotations R about the origin."""
    H = b.T @ a
    U, s, Vt = np.linalg.svd(H)
    d = np.sign(np.linalg.det(U) * np.linalg.det(Vt))
    e = (a * a).sum() + (b * b).sum() - 2 * (s[0] + s[1] + d * s[2])
    return np.sqrt(max(e, 0) / len(a))


def perfect(c):
    """Whether a boolean square matrix contains a permutation."""
    n = len(c)
    match = [-1] * n

    def go(i, seen):
        for j in np.flatnonzero(c[i]):
            if j not in seen:
                seen.add(j)
                if match[j] < 0 or go(match[j], seen):
                    match[j] = i
                    return True
        return False
    return all(go(i, set()) for i in range(n))


def triples_ok(v):
    """No three vectors are (nearly) parallel."""
    if len(v) < 3:
        return True
    u = v / np.maximum(np.linalg.norm(v, axis=1, keepdims=True), 1e-12)
    for t in itertools.combinations(range(len(u)), 3):
        if np.linalg.svd(u[list(t)], compute_uv=False)[1] < 0.15:
            return False
    return True


def unregistered(a, b, thr):
    d = np.linalg.norm(a[:, None] - b[None], axis=2)
    eps = 1e-5 * (np.abs(a).max() + np.abs(b).max()) + 1e-5 * thr
    must, may = d < thr - eps, d < thr + eps
    if not perfect(may):
        return False
    if (must == may).all() and (must.sum(0) == 1).all() and (must.sum(1) == 1).all():
        return True
    return None


def similar(a, b, thr, reg):
    """True, False, or None (not judged)."""
    if len(a) != len(b) or len(a) == 0:
        return False
    if not reg:
        return unregistered(a, b, thr)
    ra, rb = (np.linalg.norm(x, axis=1) for x in (a, b))
    oa, ob_ = np.argsort(ra), np.argsort(rb)
    sa, sb = ra[oa], rb[ob_]
    if (np.abs(sa - sb) > thr * 1.001 + 1e-5 * sa).any():
        return False
    fine = 2e-6 * (sa.max() + sb.max())
    if not (triples_ok(a) and triples_ok(b)):
        return None
    if thr > 50 * fine and unregistered(a, b, 5 * fine):
        return True
    gap = min(np.diff(sa).min() if len(a) > 1 else 9e9, np.diff(sb).min() if len(a) > 1 else 9e9)
    if gap > 2.2 * thr:
        r = kabsch(a[oa], b[ob_])
        if r > 1.01 * thr + fine:
            return False
        if r < fine and thr > 50 * fine:
            return True
    return None


def template(rng, k, thr, reg, dim):
    for _ in range(300):
        v = rng.normal(size=(k, 3))
        if dim == 2:
            v[:, 2] = 0
        v /= np.linalg.norm(v, axis=1, keepdims=True) + 1e-12
        if reg:
            r = 1 + np.arange(k) * 2.5 * thr + rng.uniform(0, 0.2 * thr, size=k)
            v *= rng.permutation(r)[:, None]
            if not triples_ok(v):
                continue
        else:
            v *= rng.uniform(0.6, 2.5, size=(k, 1))
            if k > 1:
                d = np.linalg.norm(v[:, None] - v[None], axis=2) + 9 * np.eye(k)
                if d.min() < 3 * thr:
                    continue
        return v
    return v


def crafted(rng, mon, reg, dim, thr):
    """Environments of n points as copies of templates: list of arrays."""
    n = int(rng.integers(1, 25 if not reg else 14))
    T = []
    for _ in range(int(rng.integers(1, 4))):
        k = int(rng.integers(0, 9 if not reg else 7)) if rng.random() < 0.85 else 0
        T.append(template(rng, k, thr, reg, dim))
        if rng.random() < 0.3 and k > 1:
            t = T[-1].copy()
            c = int(rng.integers(4))
            if c == 0:
                t = t[:-1]
            elif c == 1:
                t[0] *= 1 + 3 * thr / np.linalg.norm(t[0])
            elif c == 2:
                t[:, 0] *= -1
                mon.event("mirrored")
            else:
                t[0] += (1.6 * thr if not reg else 4 * thr) * t[1] / np.linalg.norm(t[1])
            T.append(t)
    E = []
    for i in range(n):
        v = T[int(rng.integers(len(T)))]
        if len(v):
            v = v[rng.permutation(len(v))]
            if reg:
                if dim == 2:
                    a = rng.uniform(0, 2 * np.pi)
                    q = np.array([np.cos(a / 2), 0, 0, np.sin(a / 2)])
                else:
                    q = rng.normal(size=4)
                    q /= np.linalg.norm(q)
                v = geo.qrot(np.broadcast_to(q, (len(v), 4)), v)
            else:
                v = v + rng.uniform(-1, 1, size=v.shape) * thr / 40 * (1 if dim == 3 else np.array([1, 1, 0]))
        E.append(f32(v).reshape(-1, 3))
    return E


def env_list(rng, E, n):
    """A neighbor list carrying the environments, with some bonds of points to themselves (which do not count)."""
    L = fr.freud.locality
    i, j, v = [], [], []
    for a in range(n):
        for x in E[a]:
            if rng.random() < 0.05 or n == 1:
                i.append(a), j.append(a), v.append([9, 9, 0])
            if n > 1:
                b = int(rng.integers(n - 1))
                i.append(a), j.append(b + (b >= a)), v.append(x)
    if n == 1:
        E[0] = E[0][:0]
    return L.NeighborList.from_arrays(n, n, np.array(i, np.uint32), np.array(j, np.uint32), f32(v).reshape(-1, 3))


def envs_of(nl, n):
    i, j, _, v, _ = nb.nlist_cols(nl)
    return [np.asarray(v[(i == a) & (j != a)], float) for a in range(n)]


def is_rearranged(mon, got, raw, reg, what):
    """got is raw with its vectors permuted (and rotated together)."""
    got = np.asarray(got, float).reshape(-1, 3)
    mon.equal(len(got), len(raw), what + " has as many vectors as the point has bonds")
    if not len(raw):
        return
    s = np.linalg.norm(raw, axis=1).max()
    if not reg:
        d = np.linalg.norm(got[:, None] - raw[None], axis=2) <= 1e-5 * s + 1e-5
        mon.check(perfect(d), what + " is a permutation of the bond vectors", got=got, bonds=raw)
    else:
        ra, rb = np.linalg.norm(got, axis=1), np.linalg.norm(raw, axis=1)
        mon.check(np.all(np.abs(np.sort(ra) - np.sort(rb)) <= 2e-5 * s + 1e-5), what + " keeps the lengths of the bonds", got=np.sort(ra), bonds=np.sort(rb))
        if len(raw) == 1 or np.diff(np.sort(rb)).min() > 1e-3 * s:
            e = kabsch(got[np.argsort(ra)], raw[np.argsort(rb)])
            mon.check(e <= 1e-3 * s, what + " is a rotated permutation of the bond vectors", rmsd=e, got=got, bonds=raw)


def lattice(rng):
    uc = fr.freud.data.UnitCell
    dim2 = rng.random() < 0.4
    cell = ((uc.square, uc.hex) if dim2 else (uc.sc, uc.bcc, uc.fcc))[int(rng.integers(2 if dim2 else 3))]()
    ns = int(rng.integers(2, 5 if dim2 else 3)) + 1
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        box, p = cell.generate_system(ns, scale=1.0, sigma_noise=float(rng.choice([0, 0, 0.01, 0.04])), seed=int(rng.integers(1e6)))
    k = {True: 4, False: 6}[dim2] if rng.random() < 0.6 else int(rng.integers(1, 13))
    return box, p, dict(num_neighbors=k)


def setup(rng, mon, reg):
    """(box, p, env argument, environments, threshold, kind)."""
    while True:
        r = setup_(rng, mon, reg)
        box, E = r[0], r[3]
        # vectors on the faces of the box are not used: motifs are wrapped into it
        b = np.array([box.Lx, box.Ly, box.Lz if not box.is2D else np.inf]) / 2 * 0.999
        if all((np.abs(e) < b).all() for e in E):
            return r


def setup_(rng, mon, reg):
    L = fr.freud.locality
    kind = "lattice" if rng.random() < 0.25 else "crafted"
    if kind == "lattice":
        box, p, arg = lattice(rng)
        p = f32(p)
        if reg:
            arg["num_neighbors"] = min(arg["num_neighbors"], 5)
        arg["exclude_ii"] = True
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            nl = L.AABBQuery(box, p).query(p, arg).toNeighborList()
        if rng.random() < 0.4:
            arg = nl
        return box, p, arg, envs_of(nl, len(p)), float(rng.choice([0.05, 0.1, 0.2, 0.3])), kind
    dim = 2 if rng.random() < 0.25 else 3
    thr = float(np.float32(rng.choice([0.05, 0.1, 0.15])))
    E = crafted(rng, mon, reg, dim, thr)
    n = len(E)
    box = fr.freud.box.Box.cube(20) if dim == 3 else fr.freud.box.Box.square(20)
    p = f32(rng.uniform(-10, 10, size=(n, 3)))
    if dim == 2:
        p[:, 2] = 0
    nl = env_list(rng, E, n)
    return box, p, nl, envs_of(nl, n), thr, kind


def cluster_case(rng, mon):
    L = fr.freud.locality
    reg = bool(rng.random() < 0.4)
    ec = fr.freud.environment.EnvironmentCluster()
    steps = 1 if rng.random() < 0.5 else 2
    for step in range(steps):
        box, p, earg, E, thr, kind = setup(rng, mon, reg)
        n = len(p)
        r = rng.random()
        if r < 0.4:
            m = int(rng.integers(0, 3 * n + 1))
            i, j = np.sort(rng.integers(0, n, size=m)), rng.integers(0, n, size=m)
            v = f32(rng.normal(size=(m, 3)))
            carg = nl = L.NeighborList.from_arrays(n, n, i.astype(np.uint32), j.astype(np.uint32), v)
        elif r < 0.6:
            carg, nl = earg, None
        else:
            carg = dict(r_max=float(box.Lx * rng.uniform(0.1, 0.45)), exclude_ii=True) if rng.random() < 0.5 else dict(num_neighbors=int(rng.integers(1, 8)), exclude_ii=True)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                nl = L.AABBQuery(box, p).query(p, carg).toNeighborList()
        kw = dict(env_neighbors=earg)
        if nl is None:
            if isinstance(earg, dict):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    nl = L.AABBQuery(box, p).query(p, earg).toNeighborList()
            else:
                nl = earg
            if rng.random() < 0.6:
                kw = {}
        ci, cj = nb.nlist_cols(nl)[:2]
        if reg or rng.random() < 0.3:
            kw["registration"] = reg
        mon.describe(kind=kind, registration=reg, threshold=thr, box=str(box), points=p, env_neighbors=earg if isinstance(earg, dict) else "list", environments=[e.tolist() for e in E[:12]],
                     cluster_bonds=np.stack([ci, cj], 1), step=step)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mon.check(ec.compute((box, p), thr, cluster_neighbors=carg, **kw) is ec, "compute returns the object")
        lab = np.asarray(ec.cluster_idx)
        mon.equal(lab.shape, (n,), "one label per point")
        must, may = [], []
        cache = {}
        for a, b in zip(ci, cj):
            if a == b:
                continue
            k = (min(a, b), max(a, b))
            if k not in cache:
                cache[k] = similar(E[k[0]], E[k[1]], thr, reg)
                if cache[k] is not None:
                    mon.event("similar_pairs" if cache[k] else "dissimilar_pairs")
                    if reg:
                        mon.event("registered_similar" if cache[k] else "registered_dissimilar")
            if cache[k]:
                must.append(k)
            if cache[k] is not False:
                may.append(k)
        lo = components(n, *np.array(must, int).reshape(-1, 2).T)
        hi = components(n, *np.array(may, int).reshape(-1, 2).T)
        for a, b in must:
            mon.check(lab[a] == lab[b], "neighbors with similar environments are in one cluster", pair=(int(a), int(b)), first=E[a], second=E[b])
        for c in np.unique(lab):
            m = np.flatnonzero(lab == c)
            x = np.flatnonzero(hi[m] != hi[m[0]])
            if len(x):
                mon.check(False, "points of one cluster are linked by similar neighbors", cluster=int(c), points=[int(m[0]), int(m[x[0]])], first=E[m[0]], second=E[m[x[0]]])
        u, first = np.unique(lab, return_index=True)
        mon.equal(u, np.arange(len(u)), "labels are consecutive")
        mon.check(np.all(np.diff(first) > 0), "labels are in order of first appearance", labels=lab)
        mon.check(ec.num_clusters == len(u), "num_clusters counts the labels", got=ec.num_clusters, want=len(u))
        pe, ce = ec.point_environments, ec.cluster_environments
        mon.equal(len(pe), n, "one environment per point")
        mon.equal(len(ce), len(u), "one environment per cluster")
        for a in range(n):
            is_rearranged(mon, pe[a], E[a], reg, "the environment of a point")
            if not len(E[a]):
                mon.event("empty_envs")
        for c in u:
            m = np.flatnonzero(lab == c)
            g = [np.asarray(pe[a], float).reshape(-1, 3) for a in m]
            mon.check(len({len(x) for x in g}) == 1, "environments of a cluster have one size", cluster=int(c))
            avg = np.mean(g, 0)
            s = np.abs(avg).max() if avg.size else 1
            mon.close(np.asarray(ce[c], float).reshape(-1, 3), avg, "the environment of a cluster is the mean of those of its points", atol=2e-5 * s + 1e-6, rtol=0, cluster=int(c))
            if kind == "crafted" and avg.size:
                dev = max(np.linalg.norm(x - g[0], axis=1).max() for x in g)
                lim = (thr / 8 if not reg else 2e-3)
                if (lo[m] == lo[m[0]]).all():
                    mon.check(dev <= lim, "corresponding vectors of a cluster's environments are aligned", cluster=int(c), deviation=dev, environments=g[:4])
        mon.event("clusters", len(u))
        if step:
            mon.event("reused")
        if must and len(u) > 1:
            mon.sig("cluster", kind, reg, int(np.log2(n)), min(len(u), 8), r < 0.4)


def motif_case(rng, mon):
    env = fr.freud.environment
    reg = bool(rng.random() < 0.4)
    mm = env.EnvironmentMotifMatch()
    for step in range(1 if rng.random() < 0.5 else 2):
        box, p, earg, E, thr, kind = setup(rng, mon, reg)
        n = len(p)
        src = [e for e in E if len(e)]
        if src and rng.random() < 0.9:
            motif = src[int(rng.integers(len(src)))]
            motif = motif[rng.permutation(len(motif))]
            if rng.random() < 0.1:
                motif = motif[:-1]
        else:
            motif = template(rng, int(rng.integers(1, 7)), thr, reg, 2 if box.is2D else 3)
        motif = f32(motif).reshape(-1, 3)
        arg = motif.tolist() if rng.random() < 0.3 and len(motif) else motif
        kw = dict(env_neighbors=earg)
        if reg or rng.random() < 0.3:
            kw["registration"] = reg
        mon.describe(kind=kind, registration=reg, threshold=thr, box=str(box), points=p, motif=motif, env_neighbors=earg if isinstance(earg, dict) else "list", environments=[e.tolist() for e in E[:12]], step=step)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mon.check(mm.compute((box, p), arg, thr, **kw) is mm, "compute returns the object")
        got = mm.matches
        mon.check(got.dtype == bool and got.shape == (n,), "one boolean per point", dtype=str(got.dtype), shape=got.shape)
        pe = mm.point_environments
        mon.equal(len(pe), n, "one environment per point")
        M = motif.astype(float)
        for a in range(n):
            want = similar(M, E[a], thr, reg)
            if want is not None:
                mon.check(bool(got[a]) == want, "point %d %s the motif" % (a, "matches" if want else "does not match"), got=bool(got[a]), motif=M, environment=E[a])
                mon.event("motif_matches" if want else "motif_misses")
            is_rearranged(mon, pe[a], E[a], reg, "the environment of a point")
            if got[a]:
                d = np.linalg.norm(np.asarray(pe[a], float) - M, axis=1).max()
                mon.check(d <= thr * 1.0001 + 1e-5, "the environment of a matching point is given in the order and frame of the motif", deviation=d, threshold=thr)
            else:
                mon.check(len(E[a]) == 0 or np.abs(np.asarray(pe[a]) - E[a]).max() <= 1e-5, "the environment of a point that does not match is left as it is")
        if step:
            mon.event("reused")
        if got.any() and not got.all():
            mon.sig("motif", kind, reg, int(np.log2(n)), len(motif))


def rmsd_case(rng, mon):
    env = fr.freud.environment
    reg = bool(rng.random() < 0.5)
    rm = env._EnvironmentRMSDMinimizer()
    for step in range(1 if rng.random() < 0.5 else 2):
        box, p, earg, E, thr, kind = setup(rng, mon, reg)
        n = len(p)
        src = [e for e in E if len(e)]
        motif = f32(src[int(rng.integers(len(src)))]) if src else f32(template(rng, 4, thr, reg, 2 if box.is2D else 3))
        motif = motif[rng.permutation(len(motif))]
        mon.describe(kind=kind, registration=reg, box=str(box), points=p, motif=motif, environments=[e.tolist() for e in E[:12]], step=step)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            rm.compute((box, p), motif, neighbors=earg, registration=reg)
        got = np.asarray(rm.rmsds, float)
        mon.equal(got.shape, (n,), "one deviation per point")
        M = motif.astype(float)
        s = np.linalg.norm(M, axis=1).max()
        for a in range(n):
            if len(E[a]) != len(M):
                mon.check(got[a] == -1, "environments of another size than the motif have deviation -1", got=got[a])
                continue
            mon.check(got[a] >= 0, "deviations are not negative", got=got[a])
            if reg:
                if triples_ok(M) and similar(M, E[a], 1e-3 * s, True):
                    mon.check(got[a] <= 1e-4 * s, "rotated copies of the motif have no deviation", got=got[a], motif=M, environment=E[a])
                    mon.event("rmsds")
            else:
                from scipy.optimize import linear_sum_assignment as lsa
                D = ((M[:, None] - E[a][None]) ** 2).sum(2)
                x, y = lsa(D)
                best = np.sqrt(D[x, y].mean())
                mon.check(got[a] >= best - 1e-5 * s, "no deviation is below that of the best pairing", got=got[a], best=best)
                # the pairing is plain when every vector is much nearer to its partner than to any other
                if all((D[x[t], y[t]] * 4 < np.delete(D[x[t]], y[t])).all() and (D[x[t], y[t]] * 4 < np.delete(D[:, y[t]], x[t])).all() for t in range(len(x))):
                    mon.close(got[a], best, "deviation of the plain pairing", atol=1e-5 * s, rtol=1e-4)
                    mon.event("rmsds")
        if step:
            mon.event("reused")
    # the functions for two sets of vectors
    k = int(rng.integers(1, 7))
    box = fr.freud.box.Box.cube(30)
    A = f32(template(rng, k, 0.1, reg, 3))
    B = A[rng.permutation(k)] + (rng.normal(size=(k, 3)) * rng.choice([0, 0.02, 0.5]) if not reg else 0)
    if reg:
        q = rng.normal(size=4)
        B = geo.qrot(np.broadcast_to(q / np.linalg.norm(q), (k, 4)), B)
    B = f32(B)
    mon.describe(ref=A, points=B, registration=reg)
    rmsd, pts, mp = env._minimize_RMSD(box, A, B.copy(), registration=reg)
    mon.check(sorted(mp) == list(range(k)) and sorted(mp.values()) == list(range(k)), "the mapping is one to one", got=mp)
    pts = np.asarray(pts, float)
    e = np.sqrt(np.mean([((A[t] - pts[mp[t]]) ** 2).sum() for t in range(k)]))
    mon.close(rmsd, e, "the deviation is that of the returned vectors and mapping", atol=3e-5, rtol=1e-4)
    is_rearranged(mon, pts, B.astype(float), reg, "the returned set")
    thr = 0.1
    pts, mp = env._is_similar_motif(box, A, B.copy(), thr, registration=reg)
    want = similar(A.astype(float), B.astype(float), thr, reg)
    if want is not None:
        mon.check(bool(mp) == want, "two sets of vectors are %s" % ("similar" if want else "not similar"), got=mp)
    if mp:
        mon.check(sorted(mp) == list(range(k)) and sorted(mp.values()) == list(range(k)), "the mapping is one to one", got=mp)
        mon.check(max(np.linalg.norm(A[t] - pts[mp[t]]) for t in range(k)) <= thr + 1e-5, "mapped vectors are within the threshold", mapping=mp)
    mon.event("mappings")
    mon.sig("rmsd", reg, k)


def case(i, rng, mon):
    r = rng.random()
    (cluster_case if r < 0.5 else motif_case if r < 0.8 else rmsd_case)(rng, mon)

"""Clusters against the connected components of the bond graph."""
import numpy as np
from vf import fr, geo, nb, hist
from vf.geo import f32

PHASES = dict(quick=[dict(variant="rel", dirs=["cluster"], cases=20000, cap=70)], thorough=[dict(variant="rel", dirs=["cluster"], cases=700000, cap=850)])
RULE = ("random systems x neighbor specifications (ball, k nearest, arbitrary asymmetric lists, sparse chains, self bonds) x keys, one object reused over several systems; partition compared "
        "with union of bonds, numbering and keys with the definition; non-trivial = at least one cluster of size above 1 and more than one cluster; distinct by "
        "(box class, kind, size class, number of clusters, largest, keys)")
REQUIRED = dict(clusters_judged=50000, multi_point_clusters=5000)


def components(n, i, j):
    """Component label of each node (smallest member), by breadth-first search."""
    adj = [[] for _ in range(n)]
    for a, b in zip(i.tolist(), j.tolist()):
        adj[a].append(b)
        adj[b].append(a)
    lab = np.full(n, -1)
    for s in range(n):
        if lab[s] < 0:
            lab[s] = s
            todo = [s]
            while todo:
                x = todo.pop()
                for y in adj[x]:
                    if lab[y] < 0:
                        lab[y] = s
                        todo.append(y)
    return lab


def graph_source(rng):
    """Bond lists that stress union-find: chains, stars, trees, permuted rings, nothing."""
    n = int(np.exp(rng.uniform(0, np.log(400)))) if rng.random() < 0.992 else int(np.exp(rng.uniform(np.log(400), np.log(80000))))
    big = 0
    if rng.random() < 0.003:
        big = int(rng.choice([256, 65536], p=[.3, .7])) + int(rng.integers(-1, 3))
        n = int(big * rng.uniform(1.01, 1.9))
    ob = geo.random_box(rng)
    p = geo.points(rng, ob, n)
    kind = "giant" if big else ("chain", "star", "tree", "random", "pairs", "empty", "blocks")[int(rng.integers(7))]
    perm = rng.permutation(n)
    if kind == "chain":
        keep = rng.random(max(n - 1, 0)) < rng.choice([0.5, 0.9, 1.0])
        e = np.stack([np.arange(n - 1), np.arange(1, n)], 1)[keep] if n > 1 else np.zeros((0, 2), int)
    elif kind == "star":
        e = np.stack([np.zeros(n - 1, int), np.arange(1, n)], 1)
    elif kind == "tree":
        e = np.array([[a, rng.integers(0, a)] for a in range(1, n) if rng.random() < 0.95]).reshape(-1, 2).astype(int)
    elif kind == "random":
        e = rng.integers(0, n, size=(int(rng.integers(0, n + 1)), 2))
    elif kind == "giant":       # one cluster around a power of two, the others below it
        j = np.arange(1, big)
        e = np.concatenate([np.stack([j - rng.integers(1, np.minimum(j, 5) + 1), j], 1), np.stack([np.arange(big, n - 1), np.arange(big + 1, n)], 1)])
        e = e[(e[:, 0] < big) | (e[:, 0] % int(rng.integers(2, 4000)) > 0)]
    elif kind == "pairs":
        e = np.arange(n - n % 2).reshape(-1, 2)
    elif kind == "blocks":
        b = rng.integers(0, max(1, n // 4), size=n)
        e = rng.integers(0, n, size=(4 * n, 2))
        e = e[b[e[:, 0]] == b[e[:, 1]]]
    else:
        e = np.zeros((0, 2), int)
    e = perm[e]
    sw = rng.random(len(e)) < 0.5
    e[sw] = e[sw][:, ::-1]
    e = e[np.argsort(e[:, 0], kind="stable")]
    nl = fr.freud.locality.NeighborList.from_arrays(n, n, e[:, 0].astype(np.uint32), e[:, 1].astype(np.uint32), f32(rng.normal(size=(len(e), 3))))
    return hist.Source(ob=ob, box=ob.freud(), p=p, q=None, tol=0, mode="graph", kind=kind, neighbors=nl,
                       bonds=hist.Bonds(e[:, 0], e[:, 1], None, None, None, 0, np.ones(len(e), bool)))


def judge(mon, what, n, idx, nclu, keys, lab, kv):
    mon.check(idx.shape == (n,), what + ": one cluster index per point")
    mon.check(nclu == len(set(lab.tolist())), what + ": %d clusters, expected %d" % (nclu, len(set(lab.tolist()))))
    mon.check(idx.min() >= 0 and idx.max() == nclu - 1 and len(set(idx.tolist())) == nclu, what + ": indices are 0..num_clusters-1", idx=idx)
    # same partition: constant on components, and as many as components
    a = {}
    for x, y in zip(lab.tolist(), idx.tolist()):
        if a.setdefault(x, y) != y:
            mon.check(False, what + ": bonded points in different clusters", labels=lab, idx=idx)
    mon.check(len(set(a.values())) == len(a), what + ": unconnected points share a cluster")
    size = np.bincount(idx, minlength=nclu)
    mon.check(np.all(np.diff(size) <= 0), what + ": clusters in order of non-increasing size", sizes=size)
    mon.check(len(keys) == nclu, what + ": one key list per cluster")
    order = np.lexsort((kv, idx))
    want = np.split(np.asarray(kv)[order], np.cumsum(size)[:-1])
    for c in range(nclu):
        got = sorted(int(x) for x in keys[c])
        w = [int(x) for x in want[c]]
        mon.check(got == w, what + ": keys of cluster %d" % c, got=got, want=w)
    mon.event("clusters_judged", nclu)
    mon.event("multi_point_clusters", int((size > 1).sum()))


def case(i, rng, mon):
    cl = fr.freud.cluster.Cluster()
    for rep in range(1 if rng.random() < 0.7 else 3):
        kmax = 0
        if rng.random() < 0.35:
            s = graph_source(rng)
        elif rng.random() < 0.25:
            ob, p, _, tol, mode = nb.rand_system(rng, nmax=100, separate=False)
            k = int(rng.integers(1, 6))
            r = float(ob.rlim() * rng.uniform(0.2, 0.97))
            qa = dict(num_neighbors=k, r_max=r)
            nl = fr.freud.locality.AABBQuery(ob.freud(), p).query(p, dict(qa, exclude_ii=True)).toNeighborList()
            a, b = nb.nlist_cols(nl)[:2]
            s = hist.Source(ob=ob, box=ob.freud(), p=p, q=None, tol=tol, mode=mode, kind="knn", neighbors=qa, bonds=hist.Bonds(a, b, None, None, None, 0, np.ones(len(a), bool)))
        else:
            s = hist.make_source(rng, kinds=("dict", "dict", "nlist", "query"), nmax=100, separate=False, huge=0.001)
        n = len(s.p)
        kv = np.arange(n)
        kw = {}
        if rng.random() < 0.4:
            kv = rng.integers(0, 2 ** 32, size=n) if rng.random() < 0.5 else rng.integers(0, 4, size=n)
            kw["keys"] = kv.astype(np.uint32) if rng.random() < 0.7 else kv.tolist()
        b = s.bonds
        mon.describe(box=s.ob.params(), n=n, bonds=np.stack([b.i, b.j], 1), kind=s.kind, keys=kw.get("keys"))
        lab = components(n, b.i, b.j)
        if not b.sure.all() and not np.array_equal(lab, components(n, b.i[b.sure], b.j[b.sure])):
            mon.event("ambiguous_cutoff")
            continue
        r = cl.compute(s.system(rng if s.kind in ("dict", "nlist", "query") else None), neighbors=s.neighbors, **kw)
        mon.check(r is cl, "compute returns the object")
        idx, nclu, keys = np.array(cl.cluster_idx), cl.num_clusters, cl.cluster_keys
        judge(mon, "%s system" % s.kind, n, idx.astype(int), int(nclu), keys, lab, kv)
        size = np.bincount(lab)
        if size.max() > 1 and nclu > 1:
            mon.sig(s.ob.key(), s.kind, int(np.log2(n)), int(nclu), int(size.max()), "keys" in kw)
        kmax = max(kmax, n)
    if rng.random() < 0.02 and n > 1:
        mon.raises(Exception, lambda: cl.compute((s.box, s.p), neighbors=s.neighbors, keys=np.zeros(n + 1, np.uint32)), "keys of wrong length")

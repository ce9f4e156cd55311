"""NeighborList operation histories against a plain bond table."""
import numpy as np
from vf import fr, geo, nb
from vf.geo import f32

PHASES = dict(quick=[dict(variant="rel", dirs=[], cases=12000, cap=70)], thorough=[dict(variant="rel", dirs=[], cases=500000, cap=850)])
RULE = ("bond tables made by from_arrays (gaps, repeated bonds, arbitrary weights, empty), queries, all_pairs; then random histories of sort / filter / filter_r / copy / "
        "copy(other) / reads of derived tables, every state compared with a plain row table and every copy with its frozen contents; non-trivial = at least one operation on a non-empty list; "
        "distinct by (source, operation sequence, gap pattern)")
REQUIRED = dict(operations=5000, empty_segments=500)


def rows(nl):
    i, j, d, v, w = nb.nlist_cols(nl)
    r = np.zeros((len(i), 7))
    r[:, 0], r[:, 1], r[:, 2], r[:, 3], r[:, 4:] = i, j, d, w, v
    return r


def canon(r):
    return r[np.lexsort(r.T[::-1])] if len(r) else r


def make(i, rng, mon):
    L = fr.freud.locality
    src = ("arrays", "arrays", "arrays", "query", "all_pairs")[int(rng.integers(5))]
    if src == "arrays":
        nq, np_ = int(rng.integers(1, 12)), int(rng.integers(1, 12))
        m = 0 if rng.random() < 0.06 else int(rng.integers(1, 60))
        if rng.random() < 0.006:
            nq, np_, m = (int(np.exp(rng.uniform(np.log(10), np.log(x)))) for x in (3e4, 3e4, 1e5))
        qi = np.sort(rng.integers(0, nq, size=m)) if rng.random() < 0.5 else np.sort(rng.choice(rng.permutation(nq)[: max(1, nq // 2)], size=m))
        if m > 1000 and rng.random() < 0.5:
            # one query point with more bonds than 16 bits can count, others before and after it
            m = 66000 + int(rng.integers(5000))
            qi = rng.integers(0, nq, size=m)
            qi[: 65600 + int(rng.integers(300))] = int(rng.integers(nq))
            qi = np.sort(qi)
        pj = rng.integers(0, np_, size=m)
        v = rng.normal(size=(m, 3)) if rng.random() < 0.6 else rng.integers(-2, 3, size=(m, 3)).astype(float)
        v = f32(v)
        w = None if rng.random() < 0.3 else f32(rng.normal(size=m))
        args = (nq, np_, qi.astype(np.uint32), pj.astype(np.uint32), v)
        keep = [a.copy() for a in args[2:]] + ([w.copy()] if w is not None else [])
        nl = L.NeighborList.from_arrays(*args) if w is None else L.NeighborList.from_arrays(*args, weights=w)
        model = np.zeros((m, 7))
        model[:, 0], model[:, 1], model[:, 3], model[:, 4:] = qi, pj, 1 if w is None else w, v
        model[:, 2] = np.sqrt((v.astype(float) ** 2).sum(1))
        r = rows(nl)
        mon.equal(r[:, [0, 1, 3, 4, 5, 6]], model[:, [0, 1, 3, 4, 5, 6]], "from_arrays keeps the bonds as given")
        mon.close(r[:, 2], model[:, 2], "from_arrays distances are vector lengths", atol=1e-7, rtol=1e-6)
        # the list owns its data
        for a in args[2:]:
            a[...] = 0
        mon.equal(rows(nl), r, "list changes with the arrays it was made from")
        # malformed tables are rejected
        if m > 1 and rng.random() < 0.3:
            bad = keep[0].copy()
            k = int(rng.integers(3))
            if k == 0 and bad[0] != bad[-1]:
                mon.raises(ValueError, lambda: L.NeighborList.from_arrays(nq, np_, bad[::-1].copy(), keep[1], keep[2]), "unsorted query point indices")
            elif k == 1:
                bad[-1] = nq
                mon.raises(ValueError, lambda: L.NeighborList.from_arrays(nq, np_, bad, keep[1], keep[2]), "query point index out of range")
            else:
                bp = keep[1].copy()
                bp[int(rng.integers(m))] = np_ + int(rng.integers(3))
                mon.raises(ValueError, lambda: L.NeighborList.from_arrays(nq, np_, keep[0], bp, keep[2]), "point index out of range")
        return src, nl, nq, np_, r
    ob, p, q, tol, mode = nb.rand_system(rng, nmax=40, qmax=20)
    box = ob.freud()
    qq = p if q is None else q
    V, D = geo.pair_table(ob, qq, p)
    amb = ob.near_face(p.astype(float)[None] - qq.astype(float)[:, None], max(tol, 1e-9) * 2)
    if src == "query":
        r_max = float(np.float32(ob.rlim() * rng.uniform(0.2, 0.98)))
        nl = L.AABBQuery(box, p).query(qq, dict(r_max=r_max, exclude_ii=bool(rng.random() < .5))).toNeighborList(bool(rng.random() < .5))
        nb.check_columns(mon, "query", *nb.nlist_cols(nl), V, D, tol * 2, amb)
    else:
        excl = bool(rng.random() < 0.6)
        system = (box, p) if rng.random() < 0.5 else L.AABBQuery(box, p)
        if q is None:
            nl = L.NeighborList.all_pairs(system, exclude_ii=excl) if not excl or rng.random() < .5 else L.NeighborList.all_pairs(system)
        else:
            nl = L.NeighborList.all_pairs(system, q, exclude_ii=excl)
        i_, j_, d_, v_, w_ = nb.nlist_cols(nl)
        want = np.ones(D.shape, bool)
        if excl:
            k = min(D.shape)
            want[np.arange(k), np.arange(k)] = False
        a = np.argwhere(want)
        mon.equal(np.stack([i_, j_], 1), a.reshape(-1, 2), "all_pairs lists every pair once, in order")
        # (tilted boxes: pairs half a box apart have no unique image)
        e = np.abs(d_ - D[i_, j_])
        mon.check(np.all((e <= 2 * tol + 1e-6 * D[i_, j_]) | (amb[i_, j_] & (not ob.ortho))), "all_pairs distances", got=d_, want=D[i_, j_])
        e = np.abs(v_ - V[i_, j_]).max(1) if len(i_) else np.zeros(0)
        mon.check(np.all((e <= 2 * tol + 1e-6) | amb[i_, j_]), "all_pairs vectors point from query point to point", got=v_, want=V[i_, j_])
        mon.check(np.all(w_ == 1), "all_pairs weights")
        mon.event("all_pairs_bonds", len(i_))
    return src, nl, len(qq), len(p), rows(nl)


def case(i, rng, mon):
    src, nl, nq, np_, model = make(i, rng, mon)
    ops = []
    mon.describe(source=src, n_query_points=nq, n_points=np_, bonds=model[:, :4], ops=ops)
    if rng.random() < 0.5:
        nb.check_table(mon, "fresh " + src, nl, nq, np_)
    mon.event("empty_segments", nq - len(np.unique(model[:, 0])))
    frozen = []
    for k in range(int(rng.integers(1, 9))):
        op = ("sort", "sort_d", "filter", "filter_r", "copy", "copy_into", "read", "bad")[int(rng.integers(8))]
        m = len(model)
        if op in ("sort", "sort_d"):
            r = nl.sort() if op == "sort" and rng.random() < 0.5 else nl.sort(by_distance=op == "sort_d")
            mon.check(r is nl, "sort returns the list")
            now = rows(nl)
            mon.equal(canon(now), canon(model), "sort permutes the bonds", ops=ops + [op])
            key = (0, 1, 2) if op == "sort" else (0, 2, 1)
            want = model[np.lexsort([model[:, c] for c in key[::-1]])] if m else model
            mon.equal(now[:, :3], want[:, :3], "sort order", ops=ops + [op])
            model = now
        elif op == "filter":
            f = rng.random(m) < rng.choice([0, 0.2, 0.6, 0.9, 1.0])
            if m and rng.random() < 0.2:
                f = model[:, 0] != rng.choice(model[:, 0])
            arg = f if rng.random() < 0.6 else f.tolist() if rng.random() < 0.5 else f.astype(np.int64) * 3
            r = nl.filter(arg)
            mon.check(r is nl, "filter returns the list")
            model = model[f]
        elif op == "filter_r":
            ds = model[:, 2] if m else np.array([1.0])
            hi = float(rng.choice(ds)) if rng.random() < 0.6 else float(rng.uniform(0, ds.max() + 1))
            lo = 0.0 if rng.random() < 0.4 else float(rng.choice(ds)) if rng.random() < 0.6 else float(rng.uniform(0, hi))
            hi, lo = float(np.float32(hi)), float(np.float32(lo))
            if not (hi > lo and hi > 0):
                hi = lo + 1
            r = nl.filter_r(hi, lo) if lo or rng.random() < 0.5 else nl.filter_r(hi)
            mon.check(r is nl, "filter_r returns the list")
            hi = float(np.float32(hi))
            model = model[(model[:, 2] >= lo) & (model[:, 2] < hi)]
        elif op == "copy":
            c = nl.copy()
            mon.equal(rows(c), model, "copy has the same bonds")
            mon.check(c.num_points == np_ and c.num_query_points == nq, "copy keeps the numbers of points")
            if rng.random() < 0.5:
                frozen.append((c, model.copy(), nq, np_))
            else:
                frozen.append((nl, model.copy(), nq, np_))
                nl = c
        elif op == "copy_into":
            # overwrite another, unrelated list with this one
            o = fr.freud.locality.NeighborList.from_arrays(3, 4, np.array([0, 2, 2]), np.array([1, 0, 3]), f32(np.ones((3, 3))))
            if rng.random() < 0.5:
                o.segments, o.neighbor_counts
            r = o.copy(nl)
            mon.check(r is o, "copy(other) returns the list")
            frozen.append((nl, model.copy(), nq, np_))
            nl = o
        elif op == "bad":
            what = int(rng.integers(4))
            if what == 0:
                mon.raises(ValueError, lambda: nl.filter_r(-1.0), "filter_r(-1)")
            elif what == 1:
                mon.raises(ValueError, lambda: nl.filter_r(1.0, 2.0), "filter_r(1, 2)")
            elif what == 2:
                mon.raises(ValueError, lambda: nl.filter_r(1.0, -0.5), "filter_r(1, -0.5)")
            else:
                mon.raises(ValueError, lambda: nl.filter(np.ones(m + 1, bool)), "mask of wrong length")
        else:
            w = int(rng.integers(3))
            if w == 0:
                nl.segments
            elif w == 1:
                nl.neighbor_counts
            else:
                nl.find_first_index(int(rng.integers(nq)))
        ops.append(op)
        mon.event("operations")
        mon.equal(rows(nl), model, "bond table after " + op, ops=ops)
        mon.check(nl.num_points == np_ and nl.num_query_points == nq, "numbers of points after " + op)
        if rng.random() < 0.6:
            nb.check_table(mon, "after " + ",".join(ops), nl, nq, np_)
    nb.check_table(mon, "at the end, after " + ",".join(ops), nl, nq, np_)
    for c, r, a, b in frozen:
        mon.equal(rows(c), r, "a copy changes together with its original", ops=ops)
        nb.check_table(mon, "copied list", c, a, b)
    if len(model) or len(ops) > 1:
        mon.sig(src, ",".join(ops[:4]), min(3, nq - len(np.unique(model[:, 0]))))

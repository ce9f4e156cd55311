"""SANN and RAD filters against reference implementations of the published algorithms."""
import numpy as np
from vf import fr, geo, nb
from vf.geo import f32

PHASES = dict(quick=[dict(variant="rel", dirs=[], cases=8000, cap=90)], thorough=[dict(variant="rel", dirs=[], cases=250000, cap=850)])
RULE = ("random systems and neighbor lists (all pairs by default, ball and nearest queries, filtered, shuffled by distance, weighted, with gaps, empty) x SANN, RAD-open, RAD-closed x "
        "radii x allow_incomplete_shell; the kept set of every query point, bond data, sizes and incomplete-shell errors judged; non-trivial = a query point judged with "
        "at least one bond kept and one removed; distinct by (filter, list kind, box class, mode, radii)")
REQUIRED = dict(query_points_judged=20000, bonds_removed=20000, incomplete_errors=200)
ASSUMPTIONS = ["query points with a decision within rounding of equality are only checked for the subset property"]


def sann(d):
    """d sorted; returns (number kept, complete, decided)."""
    m, s = min(3, len(d)), float(d[:3].sum())
    clear = True
    while m < len(d):
        a, b = s / (m - 2), float(d[m])
        if abs(a - b) < 1e-5 * (abs(a) + abs(b)):
            clear = False
        if not a > b:
            break
        s += b
        m += 1
    return m, m < len(d), clear


def rad(d, v, r, closed):
    """d sorted distances, v unit scale vectors (query -> neighbor), r radii; returns (kept mask, complete, decided)."""
    n = len(d)
    keep = np.zeros(n, bool)
    good, clear = True, True
    for j in range(n):
        good = True
        if j:
            k = np.arange(j)
            v2 = (v[k] ** 2).sum(1)
            lhs = r[j] ** 2 * v2 * d[j] * d[k]
            rhs = r[k] ** 2 * (v[k] @ v[j]) * (v[j] @ v[j])
            blocked = lhs < rhs
            scale = r[j] ** 2 * v2 * d[j] * d[k] + r[k] ** 2 * np.sqrt(v2) * d[j] ** 3
            near = (np.abs(lhs - rhs) <= 2e-5 * scale) & (scale > 0)
            sure = blocked & ~near
            if near.any() and not sure.any():
                clear = False
            good = not blocked.any()
        if good:
            keep[j] = True
        elif closed:
            break
    return keep, not (good and closed), clear


def case(i, rng, mon):
    L = fr.freud.locality
    ob, p, q, tol, mode = nb.rand_system(rng, nmax=70, qmax=30)
    box = ob.freud()
    qq = p if q is None else q
    which = ("sann", "rado", "radc")[int(rng.integers(3))]
    allow = bool(rng.random() < 0.55)
    V, D = geo.pair_table(ob, qq, p)
    kind = ("all", "ball", "ball", "knn", "list", "list", "empty")[int(rng.choice(7, p=[.2, .15, .15, .15, .15, .17, .03]))]
    kw = {} if q is None else dict(query_points=q)
    if which == "sann":
        f = L.FilterSANN() if not allow and rng.random() < 0.5 else L.FilterSANN(allow)
    elif which == "rado":
        f = L.FilterRAD(allow, False)
    else:
        f = L.FilterRAD(allow_incomplete_shell=allow) if rng.random() < 0.5 else L.FilterRAD(allow, True)
    r = np.ones(len(p))
    if which != "sann" and rng.random() < 0.4:
        r = f32(rng.uniform(0.5, 1.5, size=len(p)))
        kw["points_radii"] = r
        r = r.astype(float)
    r_max = float(np.float32(ob.rlim() * rng.uniform(0.3, 0.97)))
    given = None
    if kind == "ball":
        kw["neighbors"] = dict(r_max=r_max)
    elif kind == "knn":
        inside = int(np.median((D < ob.rlim()).sum(1)))
        kw["neighbors"] = dict(num_neighbors=int(rng.integers(1, max(2, min(20, inside) + 1))))
    elif kind in ("list", "empty"):
        excl = bool(q is None and rng.random() < 0.8)
        nl = L.AABBQuery(box, p).query(qq, dict(r_max=r_max, exclude_ii=excl)).toNeighborList(bool(rng.random() < 0.5))
        if kind == "empty":
            nl.filter(np.zeros(len(nl), bool))
        else:
            a, b, d, v, w = nb.nlist_cols(nl)
            w = f32(rng.uniform(0, 3, size=len(a)))
            nl = L.NeighborList.from_arrays(len(qq), len(p), a.astype(np.uint32), b.astype(np.uint32), v, w)
            if rng.random() < 0.5:
                keep = rng.random(len(a)) < 0.8
                if rng.random() < 0.4:
                    keep &= a != rng.integers(len(qq))
                nl.filter(keep)
            if rng.random() < 0.4:
                nl.sort(by_distance=True)
        kw["neighbors"] = nl
        given = nb.nlist_cols(nl)
    mon.describe(box=ob.params(), points=p, query_points=q, filter=which, allow=allow, radii=r if "points_radii" in kw else None,
                 neighbors=kw.get("neighbors") if isinstance(kw.get("neighbors"), dict) else kind)
    system = (box, p) if rng.random() < 0.5 else L.AABBQuery(box, p)
    err = None
    try:
        out = f.compute(system, **kw)
        mon.check(out is f, "compute returns the object")
    except RuntimeError as e:
        err = str(e)
        if "shell" not in err.lower():
            raise
    # the list that was to be filtered, from an independent route
    if kind == "all":
        ref = L.NeighborList.all_pairs((box, p), q) if q is None else L.NeighborList.all_pairs((box, p), q, exclude_ii=False)
    elif given is not None:
        ref = nl
    else:
        args = dict(kw["neighbors"])
        args["exclude_ii"] = q is None
        ref = L.AABBQuery(box, p).query(qq, args).toNeighborList()
    a, b, d, v, w = nb.nlist_cols(ref)
    if given is not None:
        mon.equal(np.column_stack([a, b]), np.column_stack(given[:2]), "the list given is not modified")
    n = len(qq)
    order = np.lexsort((b, d, a))
    a, b, d, v, w = a[order], b[order], d[order], v[order], w[order]
    start = np.searchsorted(a, np.arange(n + 1))
    kept, incomplete, unclear, judged = [], [], [], np.zeros(n, bool)
    tie = np.zeros(n, bool)
    for k in range(n):
        s = slice(start[k], start[k + 1])
        if which == "sann":
            m, comp, clear = sann(d[s].astype(np.float64))
            mask = np.arange(start[k + 1] - start[k]) < m
            if m < len(mask) and m and d[s][m] == d[s][m - 1]:
                tie[k] = True
        else:
            vv = V[k][b[s]] if len(b[s]) else np.zeros((0, 3))
            amb = ob.near_face(p[b[s]].astype(float) - qq[k].astype(float), max(4 * tol, 1e-6)).any() if len(b[s]) else False
            mask, comp, clear = rad(d[s].astype(np.float64), vv, r[b[s]], which == "radc")
            clear &= not amb
            if len(b[s]) > 1 and d[s][0] < 1e-3:        # coincident particles have no angle
                clear = False
            dd = np.diff(d[s].astype(float))
            if which != "sann" and ((dd < 1e-5) & (dd > 0)).any():
                clear = False
        kept.append(mask)
        judged[k] = clear
        if not clear:
            unclear.append(k)
        elif not comp:
            incomplete.append(k)
    if err is not None:
        mon.check(not allow or which == "rado", "incomplete shells are allowed but raised: " + err)
        mon.check(which != "rado", "RAD-open never has incomplete shells but raised: " + err)
        mon.check(bool(incomplete or unclear), "an error about incomplete shells, but every shell is complete: " + err[:200])
        mon.event("incomplete_errors")
        if not unclear:
            import re
            nums = set(map(int, re.findall(r"\d+", err)))
            mon.check(set(incomplete) <= nums, "the error names every query point with an incomplete shell", incomplete=incomplete, err=err[:300])
        mon.sig(which, "error", kind, ob.key())
        return
    if not allow and which != "rado":
        mon.check(not incomplete, "query points with incomplete shells accepted", incomplete=incomplete)
    fl, ul = f.filtered_nlist, f.unfiltered_nlist
    fa, fb, fd, fv, fw = nb.nlist_cols(fl)
    nb.check_table(mon, "filtered_nlist", fl, n, len(p), by_distance=True)
    nb.check_table(mon, "unfiltered_nlist", ul, n, len(p))
    ua, ub_, ud, uv, uw = nb.nlist_cols(ul)
    uo = np.lexsort((ub_, ud, ua))
    mon.equal(np.column_stack([ua, ub_])[uo], np.column_stack([a, b]), "unfiltered_nlist is the list that was filtered")
    mon.equal(np.column_stack([ud[uo], uw[uo], uv[uo]]), np.column_stack([d, w, v]), "bond data of unfiltered_nlist")
    rows = np.column_stack([a, b, d, w, v]).astype(np.float32)
    frows = np.column_stack([fa, fb, fd, fw, fv]).astype(np.float32)
    have = {}
    for t in map(bytes, rows):
        have[t] = have.get(t, 0) + 1
    for t in map(bytes, frows):
        have[t] = have.get(t, 0) - 1
        if have[t] < 0:
            mon.check(False, "a filtered bond is not one of the unfiltered bonds with the same data", bond=np.frombuffer(t, np.float32))
    mon.check(True, "subset")
    fs = np.searchsorted(fa, np.arange(n + 1))
    nj = 0
    for k in range(n):
        if not judged[k]:
            continue
        s = slice(start[k], start[k + 1])
        got, want = fb[fs[k]:fs[k + 1]], b[s][kept[k]]
        if tie[k]:
            mon.equal(fd[fs[k]:fs[k + 1]], d[s][kept[k]], "distances kept for query point %d" % k)
        else:
            mon.equal(np.sort(got), np.sort(want), "neighbors kept for query point %d" % k, distances=d[s], neighbors=b[s])
        nj += 1
    mon.event("query_points_judged", nj)
    mon.event("bonds_removed", len(a) - len(fa))
    mon.event("bonds_kept", len(fa))
    if nj and 0 < len(fa) < len(a):
        mon.sig(which, kind, ob.key(), mode, "radii" if "points_radii" in kw else "", q is not None, "gap" if (np.diff(start) == 0).any() else "")

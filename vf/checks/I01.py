"""Interface points against the endpoints of all cross bonds."""
import numpy as np
from vf import fr, geo, nb, hist
from vf.geo import f32

PHASES = dict(quick=[dict(variant="rel", dirs=[], cases=12000, cap=70)], thorough=[dict(variant="rel", dirs=[], cases=500000, cap=850)])
RULE = ("random systems x query points x neighbor specifications (r_max dicts, query dicts, filtered and user-built neighbor lists with repeated bonds, none) on a reused object; ids compared with the brute-force "
        "endpoint sets, counts with their lengths; non-trivial = some but not all points on the interface; distinct by (box class, neighbor kind, sizes)")
REQUIRED = dict(ids_judged=30000, empty_interfaces=100)
ASSUMPTIONS = ["points whose only bonds are within rounding of the cutoff may or may not be listed"]


def case(i, rng, mon):
    I = fr.freud.interface.Interface()
    for rep in range(int(rng.integers(1, 4))):
        s = hist.make_source(rng, kinds=("dict", "nlist", "query", "dict"), separate=True)
        mon.describe(box=s.ob.params(), points=s.p, query_points=s.q, kind=s.kind, neighbors=s.neighbors if isinstance(s.neighbors, dict) else s.kind)
        nn = s.neighbors
        b = s.bonds
        if s.kind != "dict" and rng.random() < 0.2:
            # a neighbor list that has been filtered
            nn = nn.copy()
            keep = rng.random(len(nn)) < 0.4
            i_, j_ = np.asarray(nn[:])[keep].T if keep.any() else (np.zeros(0, int), np.zeros(0, int))
            nn.filter(keep)
            b = hist.Bonds(i_.astype(int), j_.astype(int), None, None, None, 0.0, np.ones(len(i_), bool), np.zeros(len(i_), bool))
        nm = {}
        if s.kind == "dict" and rng.random() < 0.25:
            k = int(rng.integers(1, 5))
            if k <= len(s.p):
                nn = dict(num_neighbors=k)
                V, D = geo.pair_table(s.ob, s.q, s.p)
                nl = fr.freud.locality.AABBQuery(s.box, s.p).query(s.q, nn).toNeighborList()
                a = np.asarray(nl[:]).reshape(-1, 2)
                b = hist.Bonds(a[:, 0].astype(int), a[:, 1].astype(int), None, None, None, 0.0, np.ones(len(a), bool), np.zeros(len(a), bool))
        r = I.compute(s.system(rng), s.q, neighbors=nn)
        mon.check(r is I, "compute returns the object")
        pid, qid = np.asarray(I.point_ids), np.asarray(I.query_point_ids)
        for what, ids, col, cnt, n in (("point", pid, b.j, I.point_count, len(s.p)), ("query point", qid, b.i, I.query_point_count, len(s.q))):
            mon.check(cnt == len(ids) and isinstance(cnt, (int, np.integer)), what + " count is the number of ids")
            mon.check(ids.ndim == 1 and np.all(np.diff(ids.astype(np.int64)) > 0) and (len(ids) == 0 or ids.max() < n), what + " ids sorted, unique, in range", ids=ids)
            must, may = set(np.asarray(col)[b.sure].tolist()), set(np.asarray(col).tolist())
            got = set(ids.tolist())
            mon.check(must <= got <= may, what + " ids are the endpoints of the bonds", missing=sorted(must - got), extra=sorted(got - may))
            mon.event("ids_judged", len(ids))
            if not got:
                mon.event("empty_interfaces")
        if 0 < len(pid) and len(pid) + len(qid) < len(s.p) + len(s.q):
            mon.sig(s.ob.key(), s.kind, min(len(s.p), 8), min(len(s.q), 8))

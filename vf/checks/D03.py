"""LocalDensity against a brute-force overlap count."""
import numpy as np
from vf import fr, geo, nb, hist

PHASES = dict(quick=[dict(variant="rel", dirs=["density"], cases=12000, cap=70)], thorough=[dict(variant="rel", dirs=["density"], cases=400000, cap=850)])
RULE = ("random systems x r_max, diameter (0, small, comparable to r_max, larger than 2 r_max) x neighbor specifications (default, query arguments, own bond tables, query results), "
        "objects reused; num_neighbors and density per query point against brute force; non-trivial = some query point has a neighbor within r_max + diameter/2; "
        "distinct by (box class, neighbor kind, mode, diameter class, partial overlaps present, query points given)")
REQUIRED = dict(contributions=20000, partial=3000)
ASSUMPTIONS = ["neighbors within rounding of r_max may count 0 or 1 when the diameter is 0"]


def case(i, rng, mon):
    ob, p, q, tol, mode = nb.rand_system(rng, nmax=100, qmax=40, huge=0.001)
    exact = mode == "exact"
    tot = ob.rlim() * rng.uniform(0.2, 0.97) if mode != "huge" else hist.huge_r(ob, len(p)) * rng.uniform(0.7, 1.2)
    k = int(rng.integers(5))
    frac = (0.0, 0.05, 0.5, 1.0, 1.6)[k] * rng.uniform(0.5, 1.0)     # diameter / (r_max + diameter/2)
    diam = float(np.float32(tot * frac))
    r_max = float(np.float32(tot - diam / 2))
    if exact and rng.random() < 0.7:
        r_max = max(0.25, np.floor(r_max * 4) / 4)
        diam = float(rng.choice([0.0, 0.25, 0.5]))
        if r_max + diam / 2 >= ob.rlim():
            diam, r_max = 0.0, 0.5
    ld = fr.freud.density.LocalDensity(r_max, diam)
    mon.close(ld.r_max, r_max, "r_max", rtol=1e-7)
    mon.close(ld.diameter, diam, "diameter", rtol=1e-7)
    mon.describe(box=ob.params(), points=p, query_points=q, r_max=r_max, diameter=diam)
    reps = int(rng.integers(1, 4)) if rng.random() < 0.3 else 1
    for rep in range(reps):
        p2 = p if rep == 0 else geo.points(rng, ob, geo.nonzero_n(rng, 60) if mode != "huge" else int(len(p) * rng.uniform(.5, 1)), mode) if not exact else geo.exact_points(rng, ob, geo.nonzero_n(rng, 60))
        s = hist.make_source(rng, system=(ob, p2, q, tol, mode), default_r=lambda o: r_max + 0.5 * diam)
        kw = {}
        if s.neighbors is not None:
            kw["neighbors"] = s.neighbors
        if q is not None:
            kw["query_points"] = q
        r = ld.compute(s.system(rng), **kw)
        mon.check(r is ld, "compute returns the object")
        mon.describe(neighbors=s.neighbors if isinstance(s.neighbors, dict) else s.kind)
        b = s.bonds
        n = len(s.qq)
        def contrib(d):
            full, some = d < r_max - diam / 2, d < r_max + diam / 2
            if diam == 0:
                return full.astype(float)
            return np.where(full, 1.0, np.where(some, 1 + (r_max - d - diam / 2) / diam, 0.0))
        t = b.tol + (0 if exact else 1e-6 * (r_max + diam))
        hi, lo = contrib(b.d - t), contrib(b.d + t)
        lo = np.where(b.sure, lo, 0)
        L, H = np.bincount(b.i, lo, minlength=n), np.bincount(b.i, hi, minlength=n)
        cnt = np.bincount(b.i, minlength=n)
        nn, de = ld.num_neighbors, ld.density
        mon.check(nn.shape == (n,) and de.shape == (n,), "one value per query point")
        e = 3e-6 * (1 + cnt) + 6e-8 * cnt.astype(float) ** 2        # (single-precision accumulation)
        bad = ~((nn >= L - e) & (nn <= H + e))
        if bad.any():
            a = int(np.flatnonzero(bad)[0])
            mon.check(False, "num_neighbors[%d] = %r, expected %r..%r" % (a, nn[a].item(), L[a], H[a]), distances=np.sort(b.d[b.i == a]))
        mon.check(True, "num_neighbors")
        mon.check((nn >= 0).all(), "num_neighbors is not negative", got=nn.min())
        vol = np.pi * r_max ** 2 if ob.is2D else 4 / 3 * np.pi * r_max ** 3
        mon.close(de, nn.astype(float) / vol, "density is num_neighbors over the %s of r_max" % ("area" if ob.is2D else "volume"), atol=0, rtol=2e-6)
        mon.check(ld.box == s.box, "box")
        part = (b.d > r_max - diam / 2) & (b.d < r_max + diam / 2)
        mon.event("contributions", int((hi > 0).sum()))
        mon.event("partial", int(part.sum()))
        mon.event("query_points", n)
        if (hi > 0).any():
            mon.sig(ob.key(), s.kind, mode, k, bool(part.any()), q is not None, rep)
    if rng.random() < 0.05:
        for a in ((0, 1.0), (-1.0, 1.0), (1.0, -0.1)):
            mon.raises(ValueError, lambda: fr.freud.density.LocalDensity(*a), "LocalDensity%s" % (a,))

"""RDF against a brute-force shell histogram."""
import numpy as np
from vf import fr, geo, nb, hist
from vf.geo import f32

PHASES = dict(quick=[dict(variant="rel", dirs=["density"], cases=6000, cap=70)], thorough=[dict(variant="rel", dirs=["density"], cases=250000, cap=850)])
RULE = ("random systems x bins, r_min, r_max, normalization modes x neighbor specifications (default, query arguments, own bond tables, query results) x 1-4 accumulated frames "
        "of possibly different points, interleaved with reads; bin counts, rdf, n_r, edges, centers, bounds compared with the oracle; non-trivial = at least one "
        "bond binned; distinct by (box class, neighbor kind, point mode, bins, r_min>0, mode, frames, query points given)")
REQUIRED = dict(bonds_binned=20000, frames=5000, axis_end_bonds=1000)
ASSUMPTIONS = ["when frames differ in box or number of points the normalization is only judged for the counts", "distances within single-precision rounding of a bin edge may fall on either side"]


def case(i, rng, mon):
    ob, p, q, tol, mode = nb.rand_system(rng, nmax=80, qmax=40, huge=0.001)
    exact = mode == "exact"
    r_max = float(np.float32(ob.rlim() * rng.uniform(0.2, 0.97)))
    bins = hist.some(rng, 0.02, int(np.exp(rng.uniform(0, np.log(60)))), 5000)
    if mode == "huge":
        r_max = float(np.float32(hist.huge_r(ob, len(p)) * rng.uniform(0.7, 1.2)))
    r_min = 0.0 if rng.random() < 0.5 else float(np.float32(r_max * rng.uniform(0.05, 0.9)))
    if exact:       # dyadic bins: half-open edges are decided exactly
        w = float(rng.choice([0.25, 0.5]))
        r_min = 0.0 if rng.random() < 0.5 else w * int(rng.integers(1, 3))
        bins = 2 ** int(rng.integers(0, 3))
        r_max = r_min + bins * w
        if r_max >= ob.rlim():
            r_min, bins, w = 0.0, 4, 0.25
            r_max = 1.0
    nm = "exact" if rng.random() < 0.6 else "finite_size"
    D = fr.freud.density
    if nm == "exact" and rng.random() < 0.5:
        rdf = D.RDF(bins, r_max, r_min) if r_min else D.RDF(bins=bins, r_max=r_max)
    else:
        rdf = D.RDF(bins, r_max, r_min, normalization_mode=nm)
    edges = np.float32(r_min) + np.arange(bins + 1) * (float(np.float32(r_max)) - float(np.float32(r_min))) / bins
    et = 0.0 if exact else hist.edge_tol(edges)
    mon.describe(box=ob.params(), points=p, query_points=q, bins=bins, r_min=r_min, r_max=r_max, mode=nm)
    mon.close(rdf.bin_edges, edges, "bin_edges", atol=2 * et, rtol=0)
    mon.close(rdf.bin_centers, (edges[1:] + edges[:-1]) / 2, "bin_centers", atol=2 * et, rtol=0)
    mon.close(rdf.bounds, (r_min, r_max), "bounds", atol=2 * et, rtol=0)
    mon.check(rdf.nbins == bins and rdf.mode == nm, "nbins, mode")
    nf = hist.some(rng, 0.02, int(rng.integers(1, 5)), 40) if rng.random() < 0.4 else 1
    if mode == "huge":
        nf = min(nf, 2)
    coords, tols, sure, frames, inside = [], [], [], [], []
    same = True
    # a throw-away computation first: reset has to remove it
    if rng.random() < 0.2:
        t = p[: max(1, len(p) // 2)] if rng.random() < 0.5 or mode == "huge" else np.concatenate([p, geo.points(rng, ob, int(rng.integers(1, 40)))])
        rdf.compute((ob.freud(), t), reset=False)
        if rng.random() < 0.5:
            rdf.rdf
    got_bonds = 0
    for k in range(nf):
        if k and rng.random() < 0.7:     # next frame: other points, same numbers (or sometimes other numbers)
            n2 = len(p) if rng.random() < 0.7 else geo.nonzero_n(rng, 60) if mode != "huge" else int(len(p) * rng.uniform(.5, 1))
            same &= n2 == len(p)
            p2 = geo.exact_points(rng, ob, n2) if exact else geo.points(rng, ob, n2, mode)
        else:
            p2 = p
        s = hist.make_source(rng, system=(ob, p2, q, tol, mode), default_r=lambda o: r_max)
        mon.describe(neighbors=s.neighbors if isinstance(s.neighbors, dict) else s.kind)
        known = np.full(len(s.bonds.i), -1)
        if s.kind == "nlist" and len(known) and rng.random() < 0.6:     # bonds at the ends of the axis
            b = s.bonds
            v, sel = hist.edge_lengths(rng, b.v, r_min, r_max, bins)
            s.neighbors = fr.freud.locality.NeighborList.from_arrays(len(s.qq), len(s.p), b.i.astype(np.uint32), b.j.astype(np.uint32), v)
            b.v = v.astype(float)
            b.d = np.linalg.norm(b.v, axis=1)
            known[sel] = (b.d[sel] >= float(np.float32(r_min))) & (b.d[sel] < float(np.float32(r_max)))
        inside.append(known)
        kw = dict(reset=k == 0) if k or rng.random() < 0.5 else {}
        if s.neighbors is not None:
            kw["neighbors"] = s.neighbors
        if q is not None:
            kw["query_points"] = q
        r = rdf.compute(s.system(rng), **kw)
        mon.check(r is rdf, "compute returns the object")
        b = s.bonds
        coords.append(b.d)
        tols.append(np.full(len(b.d), b.tol + (0 if exact else et)))
        sure.append(b.sure)
        frames.append(s)
        mon.event("frames")
        if k < nf - 1 and rng.random() < 0.4:
            rdf.rdf, rdf.bin_counts
        if k == nf - 1 or rng.random() < 0.2:
            c = rdf.bin_counts
            base, _ = hist.check_hist(mon, "bin_counts after %d frames" % (k + 1), c, [rdf.bin_edges], [np.concatenate(coords)], [np.concatenate(tols)], np.concatenate(sure),
                                        inside=np.concatenate(inside))
            got_bonds = base.sum()
            c = c.astype(float)
            e = edges
            shell = np.pi * np.diff(e ** 2) if ob.is2D else 4 / 3 * np.pi * np.diff(e ** 3)
            nq, np_ = len(s.qq), len(s.p)
            if same:
                rho = nq / ob.volume
                if nm == "finite_size":
                    rho *= (nq - 1) / nq
                with np.errstate(all="ignore"):
                    want = c / (np_ * rho * (k + 1) * shell)
                cond = 3e-6 * (1 + 3 * e[1:] / np.diff(e))     # rounding of the shell volume
                g = rdf.rdf
                ok = np.isfinite(want)
                mon.check(g.shape == want.shape, "rdf shape")
                mon.check(np.all(np.abs(g - want)[ok] <= (cond * want)[ok] + 1e-12), "rdf is the normalised histogram", got=g, want=want)
                mon.event("rdf_judged")
                mon.close(rdf.n_r, np.cumsum(c) / (nq * (k + 1)), "n_r is the cumulative count per query point and frame", atol=1e-6, rtol=1e-5 * max(1, bins ** .5))
            mon.check(rdf.box == s.box, "box of the last frame")
    if rng.random() < 0.1:
        mon.raises(ValueError, lambda: setattr(rdf, "mode", "nonsense"), "unknown mode")
        for a in ((0, 1.0), (5, 0.0), (5, -1.0), (5, 1.0, 1.0), (5, 1.0, 2.0), (5, 1.0, -0.5)):
            mon.raises(ValueError, lambda: D.RDF(*a), "RDF%s" % (a,))
    if got_bonds:
        mon.sig(ob.key(), frames[-1].kind, mode, min(bins, 30), r_min > 0, nm, nf, q is not None)

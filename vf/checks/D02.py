"""Correlation functions against a brute-force per-bin average."""
import numpy as np
from vf import fr, geo, nb, hist
from vf.geo import f32

PHASES = dict(quick=[dict(variant="rel", dirs=["density"], cases=6000, cap=70)], thorough=[dict(variant="rel", dirs=["density"], cases=250000, cap=850)])
RULE = ("random systems x bins, r_max x real / complex / integer / zero-imaginary values and query values x neighbor specifications x 1-4 accumulated frames interleaved with reads; "
        "counts and per-bin means of conj(point value)*query value compared with brute force; non-trivial = at least one bin mean judged against bonds; distinct by "
        "(box class, neighbor kind, mode, bins, value kinds, frames, query points)")
REQUIRED = dict(bonds_binned=20000, bin_means_judged=10000, axis_end_bonds=1000)
ASSUMPTIONS = ["bins into which a bond within rounding of an edge may fall are judged for the count only"]


def values(rng, n, kind):
    v = rng.normal(size=n)
    if kind == "complex":
        return v + 1j * rng.normal(size=n)
    if kind == "czero":
        return v.astype(complex)
    if kind == "int":
        return rng.integers(-3, 4, size=n)
    if kind == "f32":
        return f32(v)
    if kind == "phase":
        return np.exp(1j * rng.uniform(0, 2 * np.pi, size=n))
    return v


KINDS = ("real", "real", "complex", "complex", "phase", "czero", "int", "f32")


def case(i, rng, mon):
    ob, p, q, tol, mode = nb.rand_system(rng, nmax=80, qmax=40, huge=0.001)
    exact = mode == "exact"
    r_max = float(np.float32(ob.rlim() * rng.uniform(0.2, 0.97)))
    bins = hist.some(rng, 0.02, int(np.exp(rng.uniform(0, np.log(40)))), 5000)
    if mode == "huge":
        r_max = float(np.float32(hist.huge_r(ob, len(p)) * rng.uniform(0.7, 1.2)))
    if exact:
        bins, w = 2 ** int(rng.integers(0, 3)), float(rng.choice([0.25, 0.5]))
        r_max = bins * w
        if r_max >= ob.rlim():
            bins, r_max = 4, 1.0
    D = fr.freud.density
    cf = D.CorrelationFunction(bins, r_max)
    edges = np.arange(bins + 1) * float(np.float32(r_max)) / bins
    et = 0.0 if exact else hist.edge_tol(edges)
    mon.close(cf.bin_edges, edges, "bin_edges", atol=2 * et, rtol=0)
    mon.close(cf.bin_centers, (edges[1:] + edges[:-1]) / 2, "bin_centers", atol=2 * et, rtol=0)
    mon.close(cf.bounds, (0, r_max), "bounds", atol=2 * et, rtol=0)
    mon.check(cf.nbins == bins and cf.bins == bins, "nbins")
    nf = hist.some(rng, 0.02, int(rng.integers(1, 5)), 40) if rng.random() < 0.4 else 1
    if mode == "huge":
        nf = min(nf, 2)
    kv, kq = KINDS[int(rng.integers(len(KINDS)))], KINDS[int(rng.integers(len(KINDS)))]
    mon.describe(box=ob.params(), points=p, query_points=q, bins=bins, r_max=r_max, values=kv, query_values=kq)
    if rng.random() < 0.2:      # something to be removed by reset
        n = len(p)
        cf.compute((ob.freud(), p), values(rng, n, "complex"), reset=False)
        if rng.random() < 0.5:
            cf.correlation
    B, T, S, P, I = [], [], [], [], []
    cplx = False
    judged = 0
    for k in range(nf):
        n2 = len(p) if k == 0 or rng.random() < 0.5 else (geo.nonzero_n(rng, 60) if mode != "huge" else int(len(p) * rng.uniform(.5, 1)))
        p2 = p if k == 0 else geo.exact_points(rng, ob, n2) if exact else geo.points(rng, ob, n2, mode)
        s = hist.make_source(rng, system=(ob, p2, q, tol, mode), default_r=lambda o: r_max)
        b = s.bonds
        known = np.full(len(b.i), -1)
        if s.kind == "nlist" and len(known) and rng.random() < 0.6:     # bonds at the ends of the axis
            v, sel = hist.edge_lengths(rng, b.v, 0.0, r_max, bins)
            s.neighbors = fr.freud.locality.NeighborList.from_arrays(len(s.qq), len(s.p), b.i.astype(np.uint32), b.j.astype(np.uint32), v)
            b.v = v.astype(float)
            b.d = np.linalg.norm(b.v, axis=1)
            known[sel] = b.d[sel] < float(np.float32(r_max))
        I.append(known)
        kw = dict(reset=k == 0) if k or rng.random() < 0.5 else {}
        if s.neighbors is not None:
            kw["neighbors"] = s.neighbors
        v = values(rng, n2, kv)
        qv = v
        if q is not None:
            kw["query_points"] = q
            qv = values(rng, len(q), kq)
            kw["query_values"] = qv
        elif rng.random() < 0.3:
            qv = values(rng, n2, kq)
            kw["query_values"] = qv
        cplx = cplx or np.iscomplex(v).any() or ("query_values" in kw and np.iscomplex(qv).any())
        r = cf.compute(s.system(rng), v, **kw)
        mon.check(r is cf, "compute returns the object")
        B.append(b.d); T.append(np.full(len(b.d), b.tol + (0 if exact else et))); S.append(b.sure)
        P.append(np.conj(np.asarray(v, complex))[b.j] * np.asarray(qv, complex)[b.i])
        mon.event("frames")
        if k < nf - 1 and rng.random() < 0.5:
            cf.correlation, cf.bin_counts
        if k == nf - 1 or rng.random() < 0.3:
            d, t, su, pr = map(np.concatenate, (B, T, S, P))
            if rng.random() < 0.5:
                got = cf.correlation
                c = cf.bin_counts
            else:
                c = cf.bin_counts
                got = cf.correlation
            base, ub = hist.check_hist(mon, "bin_counts after %d frames" % (k + 1), c, [cf.bin_edges], [d], [t], su, inside=np.concatenate(I))
            mon.check(np.iscomplexobj(got) == bool(cplx), "complex output exactly when complex values were given")
            mon.check(got.shape == (bins,), "correlation shape")
            kb = hist.digitize(d, cf.bin_edges)
            kn = np.concatenate(I)
            kb = np.where(kn == 1, np.clip(kb, 0, bins - 1), np.where(kn == 0, bins, kb))
            ok = (kb >= 0) & (kb < bins)
            tot, mag = np.zeros(bins, complex), np.zeros(bins)
            np.add.at(tot, kb[ok], pr[ok])
            np.add.at(mag, kb[ok], np.abs(pr[ok]))
            sel = ub == 0
            with np.errstate(all="ignore"):
                want = np.where(base > 0, tot / base, 0)
            if not cplx:
                want = want.real
            err = np.abs(got - want)
            lim = 1e-10 + 1e-9 * mag / np.maximum(base, 1)
            bad = sel & ~(err <= lim)
            if bad.any():
                j = int(np.flatnonzero(bad)[0])
                mon.check(False, "correlation in bin %d is %r, the mean over its %d bonds is %r" % (j, got[j].item(), base[j], want[j].item()),
                          frame=k, neighbors=s.neighbors if isinstance(s.neighbors, dict) else s.kind)
            mon.check(True, "correlation")
            e0 = sel & (base == 0)
            mon.check(np.all(got[e0] == 0), "empty bins have correlation 0")
            judged += int((sel & (base > 0)).sum())
            mon.check(cf.box == s.box, "box of the last frame")
    mon.event("bin_means_judged", judged)
    if rng.random() < 0.1:
        for a in ((0, 1.0), (5, 0.0), (5, -1.0)):
            mon.raises(ValueError, lambda: D.CorrelationFunction(*a), "CorrelationFunction%s" % (a,))
    if judged:
        mon.sig(ob.key(), s.kind, mode, bins, kv, kq if q is not None else "-", nf, q is not None)

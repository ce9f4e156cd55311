"""Debye structure factors against the direct pair sum."""
import numpy as np
from scipy.special import j0
from vf import fr, geo, nb, hist
from vf.geo import f32

PHASES = dict(quick=[dict(variant="rel", dirs=["diffraction"], cases=6000, cap=70)], thorough=[dict(variant="rel", dirs=["diffraction"], cases=250000, cap=850)])
RULE = ("random 2D/3D systems (periodic, partly periodic, triclinic; coincident points) x k ranges x query points with N_total x 1-4 accumulated frames interleaved with reads; S(k) compared with the pair "
        "sum of sinc / J0 in double precision with an error bound from the precision of distances; partials of a random split summed; non-trivial = structure factor judged with a bound below 0.02; "
        "distinct by (box class, sizes class, k count, k_min, partial, frames)")
REQUIRED = dict(S_judged=50000, partial_sums=300, frames_accumulated=2000, J0_judged=10000)
ASSUMPTIONS = ["pairs in tilted boxes within rounding of a tie between images may use either image"]


def sinc(x):
    return np.where(np.abs(x) < 1e-8, 1.0, np.sin(x) / np.where(x == 0, 1, x))


def system(rng, dim=None):
    exact = rng.random() < 0.15
    if exact:
        ob = geo.exact_box(rng, dim)
        return ob, 0.0, lambda n: geo.exact_points(rng, ob, n, step=0.5)
    ob = geo.random_box(rng, dim, periodic="random" if rng.random() < 0.3 else True)
    mode = geo.MODES[int(rng.integers(len(geo.MODES)))]

    def pts(n):
        p = geo.points(rng, ob, n, mode)
        if shift:
            p = ob.shifted(rng, p, 1)
        return p
    shift = rng.random() < 0.2
    return ob, None, pts


def case(i, rng, mon):
    D = fr.freud.diffraction
    nk = int(rng.integers(2, 25))
    big = int(rng.integers(1, 4)) if rng.random() < 0.012 else 0        # many k, points, or frames
    if big == 1:
        nk = int(np.exp(rng.uniform(np.log(25), np.log(3000))))
    elif big == 2:
        nk = int(rng.integers(2, 5))
    k_max = float(np.float32(np.exp(rng.uniform(np.log(0.3), np.log(15)))))
    k_min = float(np.float32(k_max * rng.uniform(0, 0.9))) if rng.random() < 0.5 else 0.0
    sf = D.StaticStructureFactorDebye(nk, k_max, k_min) if k_min or rng.random() < 0.5 else D.StaticStructureFactorDebye(nk, k_max)
    k = np.asarray(sf.k_values, float)
    mon.check(sf.num_k_values == nk and len(k) == nk, "num_k_values")
    mon.close(k, np.linspace(k_min, k_max, nk), "k_values", atol=4e-6 * k_max, rtol=0)
    mon.close(sf.bounds, (k_min, k_max), "bounds", atol=4e-6 * k_max, rtol=0)
    mon.close([sf.k_min, sf.k_max], (k_min, k_max), "k_min, k_max", atol=4e-6 * k_max, rtol=0)
    nf = int(rng.integers(5, 60)) if big == 3 else int(rng.integers(2, 5)) if rng.random() < 0.4 else 1
    if rng.random() < 0.2:
        sf.compute((fr.freud.box.Box.cube(0.7), f32(rng.normal(size=(7, 3)))), reset=False)
        if rng.random() < 0.5:
            sf.S_k, sf.min_valid_k
        if rng.random() < 0.3:
            mon.raises(ValueError, lambda: sf.compute((fr.freud.box.Box.cube(5), f32(rng.normal(size=(7, 3)))), query_points=f32(np.ones((2, 3)))), "query_points without N_total")
            mon.raises(ValueError, lambda: sf.compute((fr.freud.box.Box.cube(5), f32(rng.normal(size=(7, 3)))), N_total=3), "N_total without query_points")
    S, E, mv = np.zeros(nk), np.zeros(nk), np.inf
    done = 0
    dim = None
    for f in range(nf):
        ob, tol, pts = system(rng, dim)
        dim = None if rng.random() < 0.3 else ob.d
        n = geo.nonzero_n(rng, 60) if big == 0 else int(rng.integers(1, 12)) if big != 2 else int(rng.integers(60, 1200))
        p = pts(n)
        q = N = None
        if rng.random() < 0.35:
            q = pts(int(rng.integers(1, 40)) if big != 2 else int(rng.integers(1, 600)))
            if rng.random() < 0.3:
                q[rng.random(len(q)) < 0.5] = p[0]
            N = int(rng.integers(1, 2 * (n + len(q)) + 1))
        qq = p if q is None else q
        t = (ob.tol(p, qq) if tol is None else 0.0)
        V, d = geo.pair_table(ob, qq, p)
        amb = np.zeros(d.shape, bool) if ob.ortho else ob.near_face(p.astype(float)[None] - qq.astype(float)[:, None], 2 * t)
        x = k[:, None] * d.ravel()[None]
        fn = j0 if ob.is2D else sinc
        M = N if N is not None else n
        if q is not None and rng.random() < 0.2:
            M = N = np.int64(N)
        S += fn(np.maximum(x, 0) if ob.is2D else x).sum(1) / float(M)
        slope = np.minimum(0.6, 1 / np.sqrt(np.maximum(x, 1e-9))) if ob.is2D else np.minimum(0.45, 2 / np.maximum(x, 1e-9))
        e = (slope * (np.abs(k)[:, None] * t + 3e-7 * np.abs(x) + 1e-9)) + 1.5 * amb.ravel()[None]
        E += (e.sum(1) + 4e-7 * (len(p) * len(qq))) / float(M)
        mv = min(mv, 4 * np.pi / ob.L[: ob.d].min())
        mon.describe(box=ob.params(), points=p, query_points=q, N_total=N, k=[k_min, k_max, nk], frame=f)
        kw = {} if q is None else dict(query_points=q, N_total=N)
        if done == 0:
            kw.update(dict(reset=True) if rng.random() < 0.5 else {})
        else:
            kw["reset"] = False
        sy = (ob.freud(), p)
        if ob.periodic.all() and rng.random() < 0.3:
            sy = fr.freud.locality.AABBQuery(*sy)
        r = sf.compute(sy, **kw)
        mon.check(r is sf, "compute returns the object")
        done += 1
        if f == nf - 1 or rng.random() < 0.4:
            got = np.asarray(sf.S_k, float)
            err = np.abs(got - S / done)
            lim = E / done + 2e-6 * np.abs(S / done)
            mon.check(got.shape == (nk,) and np.all(err <= lim), "S(k) after %d frames" % done, got=got, want=S / done, limit=lim, k=k)
            mon.close(sf.min_valid_k, mv, "min_valid_k", rtol=1e-5)
            if done > 1:
                mon.event("frames_accumulated")
            mon.event("S_judged", nk)
            if ob.is2D:
                mon.event("J0_judged", nk)
            if lim.max() < 0.02:
                mon.sig(ob.key(), min(n, 5), nk, k_min > 0, q is not None, nf)
    if rng.random() < 0.15:
        # partials of a random split add up to the total
        ob, tol, pts = system(rng)
        n = int(rng.integers(2, 50))
        p = pts(n)
        a = rng.random(n) < rng.uniform(0.2, 0.8)
        A, B = p[a], p[~a]
        if len(A) and len(B):
            tot = np.asarray(sf.compute((ob.freud(), p)).S_k, float)
            part = np.zeros(nk)
            for P in (A, B):
                for Q in (A, B):
                    part += np.asarray(sf.compute((ob.freud(), P), query_points=Q, N_total=n).S_k, float)
            t = ob.tol(p)
            amb = 0 if ob.ortho else ob.near_face(p.astype(float)[None] - p.astype(float)[:, None], 2 * t).sum()
            mon.check(np.all(np.abs(tot - part) <= (2e-5 + 1e-6 * k_max * ob.scale()) * n + 3 * amb / n), "partial structure factors add up to the total", total=tot, sum=part)
            mon.event("partial_sums")
    if rng.random() < 0.03:
        for a in ((0, 5.0), (5, 0.0), (5, -1.0), (5, 5.0, -0.5), (5, 3.0, 3.0), (5, 2.0, 3.0)):
            mon.raises(ValueError, lambda: D.StaticStructureFactorDebye(*a), "StaticStructureFactorDebye%s" % (a,))

"""PMFT histograms against brute-force binning of relative poses."""
import numpy as np
from vf import fr, geo, nb, hist
from vf.geo import f32, qrot, qconj

PHASES = dict(quick=[dict(variant="rel", dirs=["pmft"], cases=20000, cap=70)], thorough=[dict(variant="rel", dirs=["pmft"], cases=400000, cap=850)])
RULE = ("R12 / XY / XYT / XYZ x random systems x angles or quaternions x neighbor specifications x bins x equivalent orientations x shift vectors x 1-4 accumulated frames interleaved with reads; counts "
        "compared with brute force, pmft with its normalisation; non-trivial = at least one bond binned; distinct by (class, box class, neighbor kind, bins, frames, equivalents, shift)")
REQUIRED = dict(bonds_binned=50000, pmft_values=100000)
ASSUMPTIONS = ["relative poses within single-precision rounding of a bin edge may fall on either side",
               "shift vectors up to 0.3 of the smallest plane distance, with neighbors found by the call itself"]


def angle_input(rng, a):
    """The same rotations about z as angles or as quaternions (of either sign)."""
    r = rng.random()
    if r < 0.6:
        return [a, a.tolist(), a.astype(np.float64)][int(rng.integers(3))]
    q = np.zeros((len(a), 4))
    q[:, 0], q[:, 3] = np.cos(a / 2), np.sin(a / 2)
    if rng.random() < 0.3:
        q *= rng.choice([-1, 1], size=(len(a), 1))
    return f32(q) if rng.random() < 0.6 else q


def case(i, rng, mon):
    P = fr.freud.pmft
    cls = ("R12", "XY", "XYT", "XYZ")[int(rng.integers(4))]
    d = 3 if cls == "XYZ" else 2
    ob, p, q, tol, mode = nb.rand_system(rng, nmax=50, qmax=30, dim=d, huge=0.001)
    rl = ob.rlim()
    nd = {"R12": 3, "XY": 2, "XYT": 3, "XYZ": 3}[cls]
    nb_ = [int(x) for x in np.exp(rng.uniform(0, np.log(14 if rng.random() < 0.98 else 300 if nd == 2 else 70), size=nd))]
    if rng.random() < 0.25:
        nb_ = [nb_[0]] * nd
        bins = nb_[0]
    else:
        bins = tuple(nb_)
    R = float(np.float32(rl * rng.uniform(0.15, 0.95))) if mode != "huge" else hist.huge_r(ob, len(p))
    if cls == "R12":
        mx, rdef = [R], R
        pm = P.PMFTR12(R, bins)
    else:
        k = 3 if cls == "XYZ" else 2
        u = rng.uniform(0.2, 1, size=k)
        mx = [float(np.float32(x)) for x in u / np.linalg.norm(u) * R]
        rdef = float(np.sqrt(np.sum(np.square(mx))))
    shift = None
    if cls == "XYZ" and mode != "huge" and rng.random() < 0.35:
        shift = rng.normal(size=3)
        shift = f32(shift / np.linalg.norm(shift) * rng.uniform(0, 0.3) * 2 * rl)
        if rng.random() < 0.3:
            shift = shift * (np.arange(3) == rng.integers(3)).astype(np.float32)
    if cls == "XY":
        pm = P.PMFTXY(mx[0], mx[1], bins)
    elif cls == "XYT":
        pm = P.PMFTXYT(mx[0], mx[1], bins)
    elif cls == "XYZ":
        pm = P.PMFTXYZ(*mx, bins) if shift is None else P.PMFTXYZ(*mx, bins, shiftvec=shift.tolist())
    TP = 2 * np.pi
    lin = lambda lo, hi, n: lo + (hi - lo) * np.arange(n + 1) / n
    if cls == "R12":
        edges = [lin(0, R, nb_[0]), lin(0, TP, nb_[1]), lin(0, TP, nb_[2])]
        per = (1, 2)
    else:
        edges = [lin(-m, m, n) for m, n in zip(mx, nb_)] + ([lin(0, TP, nb_[2])] if cls == "XYT" else [])
        per = (2,) if cls == "XYT" else ()
    for a in range(nd):
        mon.close(pm.bin_edges[a], edges[a], "bin_edges %d" % a, atol=2e-6 * max(1, np.abs(edges[a]).max()), rtol=0)
        mon.close(pm.bin_centers[a], (edges[a][1:] + edges[a][:-1]) / 2, "bin_centers %d" % a, atol=2e-6 * max(1, np.abs(edges[a]).max()), rtol=0)
        mon.close(pm.bounds[a], (edges[a][0], edges[a][-1]), "bounds %d" % a, atol=1e-6 * max(1, np.abs(edges[a]).max()), rtol=1e-6)
    mon.check(tuple(pm.nbins) == tuple(nb_), "nbins")
    wid = [np.diff(e) for e in edges]
    if cls == "R12":
        cen = (edges[0][1:] + edges[0][:-1]) / 2
        vol = (cen * wid[0])[:, None, None] * wid[1][None, :, None] * np.full(nb_[2], 1 / nb_[2])[None, None]
    elif cls == "XY":
        vol = wid[0][:, None] * wid[1][None]
    elif cls == "XYT":
        vol = wid[0][:, None, None] * wid[1][None, :, None] * np.full(nb_[2], 1 / nb_[2])[None, None]
    else:
        vol = wid[0][:, None, None] * wid[1][None, :, None] * wid[2][None, None]
    eq, neq = None, 1
    if cls == "XYZ" and rng.random() < 0.5:
        neq = hist.some(rng, 0.05, int(rng.integers(1, 5)), 50)
        eq = geo.random_quats(rng, neq)
    if rng.random() < 0.2:      # removed by reset
        bx = fr.freud.box.Box.cube(9) if d == 3 else fr.freud.box.Box.square(9)
        x = f32(np.pad(rng.uniform(-4, 4, size=(12, d)), ((0, 0), (0, 3 - d))))
        if cls == "XYZ":
            pm.compute((bx, x), geo.random_quats(rng, 12), neighbors=dict(r_max=4.0), reset=False)
        elif cls == "XY":
            pm.compute((bx, x), np.zeros(12), neighbors=dict(r_max=4.0), reset=False)
        else:
            pm.compute((bx, x), np.zeros(12), neighbors=dict(r_max=4.0), reset=False)
        if rng.random() < 0.5:
            pm.pmft
    nf = hist.some(rng, 0.02, int(rng.integers(1, 5)), 40) if rng.random() < 0.4 else 1
    if mode == "huge":
        nf = min(nf, 2)
    C, T, S = [], [], []
    np_, nq = len(p), len(p if q is None else q)
    tot = 0
    for k in range(nf):
        p2 = p if k == 0 else geo.exact_points(rng, ob, np_) if mode == "exact" else geo.points(rng, ob, np_, mode)
        tolk = tol
        kinds = ("default", "dict") if shift is not None else ("default", "dict", "nlist", "query")
        qeff = q
        kw = {}
        if q is not None:
            kw["query_points"] = q
        if shift is not None:
            qeff = f32((p2 if q is None else q).astype(np.float32) - shift)
            tolk = ob.tol(p2, qeff)
        s = hist.make_source(rng, system=(ob, p2, qeff, tolk, mode if shift is None else "shifted"), kinds=kinds, default_r=lambda o: rdef)
        b = s.bonds
        if shift is not None and q is None:
            # self pairs are excluded by default when no query points are given
            if s.kind == "default":
                m = b.i != b.j
                s.bonds = b = hist.Bonds(b.i[m], b.j[m], b.d[m], b.v[m], b.w[m], b.tol, b.sure[m], ~b.vec_ok[m])
            elif "exclude_ii" not in s.neighbors:
                s.neighbors["exclude_ii"] = False
        if s.kind == "nlist" and len(b.i) and rng.random() < 0.5 and mode != "exact":
            v = b.v * rng.choice([0.2, 0.5, 1], size=(len(b.i), 1)) * (R / max(1e-9, np.abs(b.v).max()))
            if cls != "XYZ" and rng.random() < 0.4:      # the ends of the axes
                v, _ = hist.edge_lengths(rng, v, 0.0, R if cls == "R12" else mx[int(rng.integers(2))], nb_[0])
            s.neighbors = fr.freud.locality.NeighborList.from_arrays(nq, np_, b.i.astype(np.uint32), b.j.astype(np.uint32), f32(v))
            b.v = f32(v).astype(float)
            b.d = np.linalg.norm(b.v, axis=1)
        if s.neighbors is not None:
            kw["neighbors"] = s.neighbors
        reset = (dict(reset=True) if rng.random() < 0.5 else {}) if k == 0 else dict(reset=False)
        if cls == "XYZ":
            qo = geo.random_quats(rng, nq)
            if eq is not None:
                kw["equiv_orientations"] = eq
            args = (qo,)
        else:
            rr = (0.01, 3.13) if rng.random() < 0.4 else (-10, 10)
            ang = lambda n: f32(rng.choice([rng.uniform(*rr), 0.0, np.pi / 2, np.pi]) * np.ones(n) if rng.random() < 0.15 else rng.uniform(*rr, size=n))
            ap = ang(np_)
            aq = ap
            if cls == "XY":
                aq = ang(nq)
                args = (angle_input(rng, aq),)
            else:
                if (q is not None and (nq != np_ or rng.random() < 0.5)) or rng.random() < 0.3:
                    aq = ang(nq)
                    kw["query_orientations"] = angle_input(rng, aq)
                args = (angle_input(rng, ap),)
        mon.describe(cls=cls, box=ob.params(), points=p2, query_points=q, bins=nb_, ranges=mx, kind=s.kind, frame=k, shift=shift, neq=neq,
                     neighbors=s.neighbors if isinstance(s.neighbors, dict) else s.kind)
        r = pm.compute(s.system(rng), *args, **kw, **reset)
        mon.check(r is pm, "compute returns the object")
        m = len(b.i)
        mon.event("frames")
        amb = ~b.vec_ok
        vt = b.tol + 3e-7 * b.d
        with np.errstate(all="ignore"):
            at = np.where(b.d > 0, np.minimum(1.5 * b.tol / np.maximum(b.d, 1e-300) + 3e-6, 7.0), 7.0)
        at = np.where(b.d <= 2 * b.tol, 7.0, at)
        if m == 0:
            pass
        elif cls == "R12":
            th = np.arctan2(b.v[:, 1], b.v[:, 0])
            t1 = np.mod(ap.astype(float)[b.j] - th, TP)
            t2 = np.mod(aq.astype(float)[b.i] - th - np.pi, TP)
            ta = np.minimum(np.where(amb, 7.0, at), 7.0)
            C.append(np.stack([b.d, t1, t2], 1)); T.append(np.stack([b.tol + 5e-7 * np.maximum(b.d, R), ta, ta], 1)); S.append(b.sure)
        elif cls in ("XY", "XYT"):
            a = aq.astype(float)[b.i]
            c, sn = np.cos(a), np.sin(a)
            x, y = c * b.v[:, 0] + sn * b.v[:, 1], -sn * b.v[:, 0] + c * b.v[:, 1]
            big = np.where(amb, 4 * R + 4 * b.d, 1.5 * vt + 6e-7 * b.d + 5e-7 * R)
            cc, tt = [x, y], [big, big]
            if cls == "XYT":
                cc.append(np.mod(ap.astype(float)[b.j] - np.arctan2(-b.v[:, 1], -b.v[:, 0]), TP))
                tt.append(np.where(amb, 7.0, at))
            C.append(np.stack(cc, 1)); T.append(np.stack(tt, 1)); S.append(b.sure)
        else:
            v0 = qrot(qconj(qo[b.i]), b.v)
            for e in ([np.array([1., 0, 0, 0])] if eq is None else eq.astype(float)):
                v = qrot(e[None], v0)
                big = np.where(amb, 4 * R + 4 * b.d, 2 * vt + 2e-6 * b.d + 5e-7 * R)
                C.append(v); T.append(np.repeat(big[:, None], 3, 1)); S.append(b.sure)
        if k == nf - 1 or rng.random() < 0.4:
            cc = np.concatenate(C) if C else np.zeros((0, nd))
            tt = np.concatenate(T) if T else np.zeros((0, nd))
            su = np.concatenate(S) if S else np.zeros(0, bool)
            if rng.random() < 0.5:
                f, c = pm.pmft, pm.bin_counts
            else:
                c, f = pm.bin_counts, pm.pmft
            if cls == "XY" and 1 in nb_:
                c = np.reshape(c, nb_)      # axes with a single bin are squeezed away
            base, ub = hist.check_hist(mon, "PMFT%s bin_counts after %d frames" % (cls, k + 1), c, edges, list(cc.T), list(tt.T), su, periodic=per)
            tot += int(base.sum())
            with np.errstate(divide="ignore"):
                pcf = np.asarray(c, float) * ob.volume / (nq * np_ * (k + 1) * neq) / vol
                want = -np.log(pcf)
            mon.close(f, want, "pmft is minus log of counts over the ideal-gas expectation", atol=2e-5, rtol=1e-5)
            mon.event("pmft_values", f.size)
            mon.check(pm.box == s.box, "box of the last frame")
    if rng.random() < 0.03:
        if cls != "XYZ":
            mon.raises(ValueError, lambda: pm.compute((fr.freud.box.Box.cube(20), f32(rng.uniform(-9, 9, size=(5, 3)))), np.zeros(5), neighbors=dict(r_max=2.0)), "3D box")
        else:
            mon.raises(ValueError, lambda: pm.compute((fr.freud.box.Box.square(20), f32(np.zeros((5, 3)))), geo.random_quats(rng, 5), neighbors=dict(r_max=2.0)), "2D box")
            x = f32(rng.uniform(-9, 9, size=(5, 3)))
            bx = fr.freud.box.Box.cube(20)
            pm.compute((bx, x), geo.random_quats(rng, 5), equiv_orientations=geo.random_quats(rng, 2), neighbors=dict(r_max=2.0))
            mon.raises(Exception, lambda: pm.compute((bx, x), geo.random_quats(rng, 5), equiv_orientations=geo.random_quats(rng, 3), neighbors=dict(r_max=2.0), reset=False),
                       "number of equivalent orientations changed while accumulating")
    if tot:
        mon.sig(cls, ob.key(), s.kind, tuple(nb_), nf, neq, shift is not None, q is not None)

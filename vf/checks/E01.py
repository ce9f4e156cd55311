"""Bond order diagrams against a brute-force histogram of bond directions."""
import numpy as np
from vf import fr, geo, nb, hist
from vf.geo import f32, qrot, qconj

PHASES = dict(quick=[dict(variant="rel", dirs=["environment"], cases=8000, cap=70)], thorough=[dict(variant="rel", dirs=["environment"], cases=300000, cap=850)])
RULE = ("random systems and explicit bond lists (axis-aligned, polar and seam directions over-represented) x modes x orientations x bins x 1-4 accumulated frames interleaved with reads; counts compared "
        "with brute force, bond_order with counts per solid angle and frame; non-trivial = at least one bond binned; distinct by (box class, neighbor kind, mode, bins, orientations, frames)")
REQUIRED = dict(bonds_binned=50000, polar_bonds=500, seam_bonds=500)
ASSUMPTIONS = ["directions within single-precision rounding of a bin edge may fall on either side; the azimuth of a polar direction is arbitrary"]


def special_vectors(rng, m):
    v = rng.normal(size=(m, 3))
    k = rng.integers(0, 7, size=m)
    ax = np.array([[0, 0, 1], [0, 0, -1], [1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [1, -1e-9, 0], [1, 1e-9, 0], [1, -1e-7, .5], [-1, -1e-9, 0], [1e-6, 0, -1], [1e-6, 1e-6, 1],
                   [1, 1, 0], [1, -1, 0], [1, 0, 1], [-1, 1, 0], [1, -1e-20, 0], [1, 0, -1]])
    v[k < 3] = ax[rng.integers(0, len(ax), size=(k < 3).sum())]
    p = k == 3
    v[p, 2] = 0
    return f32(v * np.exp(rng.uniform(-1, 1, size=(m, 1))))


def case(i, rng, mon):
    E = fr.freud.environment
    mode = ("bod", "lbod", "obcd", "oocd")[int(rng.integers(4))]
    nt, npb = (hist.some(rng, 0.02, int(np.exp(rng.uniform(np.log(2), np.log(x)))), 400) for x in (40, 30))
    if rng.random() < 0.3:
        nt, npb = [(4, 2), (6, 6), (8, 4), (2, 2), (12, 3), (3, 5)][int(rng.integers(6))]
    bins = (nt, npb)
    if rng.random() < 0.1:
        nt = npb
        bins = nt
    bo = E.BondOrder(bins, mode) if mode != "bod" or rng.random() < 0.7 else E.BondOrder(bins)
    mon.check(bo.mode == mode and tuple(bo.nbins) == (nt, npb), "mode and nbins")
    te, pe = np.arange(nt + 1) * 2 * np.pi / nt, np.arange(npb + 1) * np.pi / npb
    mon.close(bo.bin_edges[0], te, "theta edges", atol=2e-6)
    mon.close(bo.bin_edges[1], pe, "phi edges", atol=2e-6)
    mon.close(bo.bin_centers[0], (te[1:] + te[:-1]) / 2, "theta centers", atol=2e-6)
    mon.close(bo.bin_centers[1], (pe[1:] + pe[:-1]) / 2, "phi centers", atol=2e-6)
    sa = np.diff(te)[:, None] * (np.cos(pe[:-1]) - np.cos(pe[1:]))[None]
    nf = hist.some(rng, 0.02, int(rng.integers(1, 5)), 40) if rng.random() < 0.4 else 1
    if rng.random() < 0.2:
        bo.compute((fr.freud.box.Box.cube(9), f32(rng.normal(size=(6, 3)))), neighbors=dict(r_max=4.0), reset=False)
        if rng.random() < 0.5:
            bo.bond_order
    TH, PH, TT, TP, SU = [], [], [], [], []
    tot = 0
    for k in range(nf):
        s = hist.make_source(rng, kinds=("dict", "nlist", "nlist", "query"), nmax=50, huge=0.001 if nf < 3 else 0)
        b = s.bonds
        if s.kind == "nlist" and len(b.i):
            v = special_vectors(rng, len(b.i))
            s.neighbors = fr.freud.locality.NeighborList.from_arrays(len(s.qq), len(s.p), b.i.astype(np.uint32), b.j.astype(np.uint32), v)
            b.v = v.astype(float)
            b.d = np.linalg.norm(b.v, axis=1)
        if len(b.i) and not np.all(b.d > max(4 * b.tol, 1e-30)):
            mon.event("zero_length")     # no direction
            continue
        np_, nq = len(s.p), len(s.qq)
        kw = dict(neighbors=s.neighbors)
        ori = np.tile(np.array([1., 0, 0, 0]), (np_, 1))
        if rng.random() < 0.8:
            ori = geo.random_quats(rng, np_)
            kw["orientations"] = ori
        qori = ori
        if s.q is not None:
            kw["query_points"] = s.q
        if (s.q is not None and (nq != np_ or rng.random() < 0.5)) or rng.random() < 0.3:
            qori = geo.random_quats(rng, nq)
            kw["query_orientations"] = qori
        mon.describe(box=s.ob.params(), points=s.p, query_points=s.q, bins=[nt, npb], mode=mode, kind=s.kind, frame=k)
        reset = {}
        if not TH:
            reset = dict(reset=True) if rng.random() < 0.5 else {}
        else:
            reset = dict(reset=False)
        r = bo.compute(s.system(rng), **kw, **reset)
        mon.check(r is bo, "compute returns the object")
        v = b.v
        err = np.full(len(b.i), 3 * b.tol) + 2e-7 * b.d
        m = len(b.i)
        amb = ~b.vec_ok
        if m:
            if mode == "lbod":
                v = qrot(qconj(ori[b.j]), v)
            elif mode == "obcd":
                v = qrot(qori[b.i], qrot(qconj(ori[b.j]), v))
            elif mode == "oocd":
                v = qrot(qconj(ori[b.j]), qrot(qori[b.i], np.array([0, 0, 1.0])))
                err, amb = np.full(m, 2e-6), np.zeros(m, bool)
            n = np.linalg.norm(v, axis=1)
            if mode in ("lbod", "obcd"):
                err = err + 2e-6 * n
            rel = err / n + 3e-7
            sn = np.hypot(v[:, 0], v[:, 1]) / n
            with np.errstate(divide="ignore", invalid="ignore"):
                tt = np.where(sn > 2 * rel, 1.5 * rel / sn, 7.0)
                if mode == "bod" and s.kind != "dict":
                    # vectors are known exactly: only the arc functions round
                    tt = np.where(sn > 0, 2e-6, 7.0)
                tp = np.minimum(np.sqrt(2 * rel) + rel, 1.5 * rel / np.maximum(sn, 1e-12))
            th = np.mod(np.arctan2(v[:, 1], v[:, 0]), 2 * np.pi)
            ph = np.arccos(np.clip(v[:, 2] / n, -1, 1))
            tt[amb], tp[amb] = 7.0, 7.0
            TH.append(th); PH.append(ph); TT.append(np.minimum(tt + 2e-6, 7.0)); TP.append(tp + 1e-6); SU.append(b.sure)
            mon.event("polar_bonds", int((sn < 1e-3).sum()))
            mon.event("seam_bonds", int((np.abs(v[:, 1]) < 1e-6 * n)[v[:, 0] > 0].sum()))
        else:
            TH.append(np.zeros(0)); PH.append(np.zeros(0)); TT.append(np.zeros(0)); TP.append(np.zeros(0)); SU.append(np.zeros(0, bool))
        mon.event("frames")
        if k == nf - 1 or rng.random() < 0.4:
            c, o = bo.bin_counts, bo.bond_order
            th, ph, tt, tp, su = map(np.concatenate, (TH, PH, TT, TP, SU))
            big = [te, np.concatenate([[-np.inf], pe[1:-1], [np.inf]])]
            base, ub = hist.check_hist(mon, "bin_counts (%s) after %d frames" % (mode, len(TH)), c, big, [th, ph], [tt, tp], su, periodic=(0,))
            tot += int(base.sum())
            want = np.asarray(c, float) / sa / len(TH)
            rt = 1e-5 + 4e-7 / (np.pi / npb) ** 2
            mon.close(o, want, "bond_order = counts / solid angle / frames (%d)" % len(TH), rtol=rt, atol=1e-6)
            mon.check(bo.box == s.box, "box of the last frame")
    if rng.random() < 0.02:
        for a in ((1, 5), (5, 1)):
            mon.raises(ValueError, lambda: E.BondOrder(a), "BondOrder%s" % (a,))
        mon.raises(Exception, lambda: E.BondOrder((4, 4), "nomode"), "unknown mode")
    if tot:
        mon.sig(s.ob.key(), s.kind, mode, nt, npb, "orientations" in kw, nf, s.q is not None)

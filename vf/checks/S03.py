"""Direct structure factor against the Fourier sums over the reported k vectors (full build: Eigen)."""
import warnings
import numpy as np
from vf import fr, geo
from vf.geo import f32

PHASES = dict(quick=[dict(variant="rel", dirs=["diffraction", "locality"], full=True, cases=40000, cap=60)],
              thorough=[dict(variant="rel", dirs=["diffraction", "locality"], full=True, cases=800000, cap=800)])
RULE = ("random and lattice systems (2D and 3D, orthogonal and triclinic, points also outside the box) x bins, k_min, k_max, sampling targets x 1-4 frames (with box changes and resets) x partial structure factors; every bin compared with the "
        "mean over the reported k vectors of the Fourier product in double precision, the k vectors with the reciprocal lattice (complete without sampling, on average the requested number with it); "
        "non-trivial = at least one bin with k vectors judged; distinct by (box class, bins, sampled, frames, partial, k_min)")
REQUIRED = dict(bins_judged=8000, k_vectors=100000, complete_sets=1000, sampled_sets=200, partials=400, multi_frame=700)
ASSUMPTIONS = ["bins with k vectors within rounding of their edges are not judged", "without sampling, the k vectors are those with non-negative indices, as in the Dynasor algorithm the documentation names"]


def lattice_set(ob, k_min, k_max):
    """All reciprocal lattice vectors of non-negative indices with length in [k_min, k_max], with a slack: (indices, lengths)."""
    d = ob.d
    A = ob.M[:d, :d]                 # columns are the lattice vectors
    B = 2 * np.pi * np.linalg.inv(A)  # rows are the reciprocal vectors
    N = [int(np.floor(k_max * 1.0001 * np.linalg.norm(A[:, a]) / (2 * np.pi))) + 1 for a in range(d)]
    if np.prod([x + 1 for x in N]) > 300000:
        return None, None, B
    h = np.stack(np.meshgrid(*[np.arange(x + 1) for x in N], indexing="ij"), -1).reshape(-1, d)
    k = np.linalg.norm(h @ B, axis=1)
    s = (k <= k_max * 1.0001) & (k >= k_min * 0.9999)
    return h[s], k[s], B


def case(i, rng, mon):
    dim = 2 if rng.random() < 0.35 else 3
    bins = int(rng.integers(1, 40))
    nf = int(rng.choice([1, 1, 2, 3, 4]))
    frames = []
    ob = None
    for f in range(nf):
        if ob is None or rng.random() < 0.5:
            ob = geo.random_box(rng, dim, lo=2, hi=10)
        n = geo.nonzero_n(rng, 40)
        if rng.random() < 0.3:
            m = int(rng.integers(1, 4))
            g = np.stack(np.meshgrid(*[np.arange(m)] * 3, indexing="ij"), -1).reshape(-1, 3) / m
            p = ob.abs(g[: , :] + 0.01 * rng.random(3) + (0.02 * rng.normal(size=g.shape) if rng.random() < .5 else 0))
        else:
            p = ob.abs(rng.random((n, 3)))
        p = f32(p)
        if rng.random() < 0.2:
            p = ob.shifted(rng, p)
        if ob.is2D:
            p[:, 2] = 0
        frames.append((ob, p))
    V = min(o.volume for o, _ in frames)
    # about this many k vectors
    want = float(np.exp(rng.uniform(np.log(3), np.log(3000 if rng.random() < .2 else 300))))
    if dim == 3:
        k_max = 2 * np.pi * (want * 6 / np.pi / V) ** (1 / 3)
    else:
        k_max = 2 * np.pi * (want * 4 / np.pi / V) ** .5
    k_max = float(np.float32(k_max))
    k_min = float(np.float32(k_max * rng.uniform(0.1, 0.9))) if rng.random() < 0.5 else 0.0
    num = int(want * rng.uniform(0.1, 0.9)) if rng.random() < 0.3 else 0
    cls = fr.freud.diffraction.StaticStructureFactorDirect
    sf = cls(bins, k_max, k_min, num) if num or k_min or rng.random() < 0.5 else cls(bins, k_max)
    mon.check(sf.nbins == bins and sf.num_sampled_k_points == num and abs(sf.k_max - k_max) < 1e-5 * k_max and abs(sf.k_min - k_min) < 1e-5 * k_max, "parameters")
    edges = np.linspace(k_min, k_max, bins + 1)
    mon.close(sf.bin_edges, edges, "bin edges", atol=1e-6 * k_max, rtol=1e-5)
    mon.close(sf.bin_centers, (edges[1:] + edges[:-1]) / 2, "bin centers", atol=1e-6 * k_max, rtol=1e-5)
    edges = np.asarray(sf.bin_edges, float)
    mon.describe(bins=bins, k_max=k_max, k_min=k_min, num=num, frames=[(o.params(), p) for o, p in frames])
    if rng.random() < 0.3:
        sf.compute((fr.freud.box.Box.cube(4), f32(rng.uniform(-2, 2, size=(5, 3)))))
    S, N, E, amb = np.zeros(bins), np.zeros(bins, int), np.zeros(bins), np.zeros(bins, bool)
    partial = rng.random() < 0.3
    mv = np.inf
    nk = 0
    for f, (ob, p) in enumerate(frames):
        box = ob.freud()
        P = p.astype(float)
        q, Nt = P, len(p)
        kw = {}
        if partial:
            qq = f32(ob.abs(rng.random((int(rng.integers(1, 30)), 3))))
            if ob.is2D:
                qq[:, 2] = 0
            Nt = len(p) + len(qq) if rng.random() < .7 else int(rng.integers(1, 100))
            q = qq.astype(float)
            kw = dict(query_points=qq, N_total=Nt)
        sysm = (box, p) if rng.random() < 0.6 else fr.freud.locality.AABBQuery(box, p)
        mon.check(sf.compute(sysm, reset=f == 0, **kw) is sf, "compute returns the object")
        mv = min(mv, 2 * np.pi / ob.L[: ob.d].min())
        K = np.asarray(sf.k_points, float)
        K = K.reshape(-1, 3)
        nk += len(K)
        # the vectors are reciprocal lattice vectors within the range, none repeated
        full, fk, B = lattice_set(ob, k_min, k_max)
        d = ob.d
        h = K[:, :d] @ np.linalg.inv(B)
        hi = np.round(h)
        slack = 1e-5 * (1 + np.abs(h).max(initial=0)) * (1 + abs(ob.xy) + abs(ob.xz) + abs(ob.yz)) ** 2 * max(1, np.linalg.cond(B) / 10)
        mon.check(np.all(np.abs(h - hi) < slack + 1e-4), "k_points are reciprocal lattice vectors of the box", k=K[np.abs(h - hi).max(1) >= slack + 1e-4][:3])
        mon.check(not len(K) or dim == 3 or np.all(K[:, 2] == 0), "k vectors of a 2D box lie in its plane")
        klen = np.linalg.norm(K, axis=1)
        mon.check(np.all(klen <= k_max * (1 + 1e-5)) and np.all(klen >= k_min * (1 - 1e-5) - 1e-9), "k vectors lie between k_min and k_max", lengths=klen)
        u = {tuple(x) for x in hi.astype(int).tolist()}
        mon.check(len(u) == len(K), "no k vector is repeated")
        mon.check(np.all(hi >= 0), "indices are non-negative")
        mon.event("k_vectors", len(K))
        if num == 0 and full is not None:
            t = 2e-5 * k_max
            must = full[(fk > k_min + t) & (fk < k_max - t)] if k_min > 0 else full[fk < k_max - t]
            miss = [x for x in map(tuple, must.tolist()) if x not in u]
            mon.check(not miss, "without sampling, %d of the %d reciprocal lattice vectors in range are missing from k_points" % (len(miss), len(must)), missing=miss[:5], box=ob.params())
            mon.event("complete_sets")
        elif num and full is not None and ob.ortho and k_min == 0 and len(full) > 20:
            # each vector is kept independently; the expected number is about the target
            if num < 0.5 * len(full):
                mon.check(abs(len(K) - num) < 7 * np.sqrt(num + 1) + 0.35 * num + 30 + surface(ob, k_max), "sampling %d of %d k vectors kept %d" % (num, len(full), len(K)))
            mon.event("sampled_sets")
        # sums
        F1 = np.exp(1j * (K @ P.T)).sum(1) / np.sqrt(Nt)
        F2 = F1 if q is P else np.exp(1j * (K @ q.T)).sum(1) / np.sqrt(Nt)
        s = np.real(np.conj(F1) * F2)
        dl = 4e-7 * klen * (np.abs(P).sum(1).max(initial=0) + np.abs(q).sum(1).max(initial=0)) + 2e-6
        e = (np.abs(F2) * len(P) + np.abs(F1) * len(q)) / np.sqrt(Nt) * dl + len(P) * len(q) / Nt * dl ** 2 + 1e-6
        b = np.searchsorted(edges, klen, side="right") - 1
        near = np.abs(klen[:, None] - edges[None]) < 3e-6 * k_max + 1e-9
        for x, y in np.argwhere(near):
            if klen[x] == 0 and k_min == 0:
                continue        # k = 0 is exact
            amb[max(0, y - 1): y + 1] = True
        ok = (b >= 0) & (b < bins)
        np.add.at(S, b[ok], s[ok])
        np.add.at(E, b[ok], e[ok])
        np.add.at(N, b[ok], 1)
        if rng.random() < 0.3:
            sf.S_k          # reading in between changes nothing
    got = np.asarray(sf.S_k)
    mon.check(got.shape == (bins,), "one value per bin")
    with np.errstate(all="ignore"):
        wantS = np.where(N > 0, S / np.maximum(N, 1), 0)
        tol = np.where(N > 0, E / np.maximum(N, 1), 0) + 1e-5 * np.abs(wantS) + 1e-6
    ok = (np.abs(got - wantS) <= tol) | amb
    if not ok.all():
        x = int(np.flatnonzero(~ok)[0])
        mon.check(False, "S_k in bin %d (%d k vectors) is %r, the mean Fourier product is %r" % (x, N[x], got[x].item(), wantS[x].item()), tolerance=tol[x], partial=partial)
    mon.check(abs(sf.min_valid_k - mv) < 1e-5 * mv, "min_valid_k is %r, expected %r" % (sf.min_valid_k, mv))
    mon.event("bins_judged", int((~amb & (N > 0)).sum()))
    mon.event("partials", int(partial))
    mon.event("multi_frame", int(nf > 1))
    if (~amb & (N > 0)).any():
        mon.sig(ob.key(), min(bins, 4), num > 0, nf, partial, k_min > 0)
    if rng.random() < 0.05:
        c = int(rng.integers(7))
        bad = ((0, 5.0, 0), (5, 0.0, 0), (5, -1.0, 0), (5, 5.0, -1), (5, 5.0, 5.0), (5, 5.0, 6.0), (-1, 5.0, 0))[c]
        mon.raises((ValueError, TypeError, OverflowError), lambda: cls(*bad), "constructor arguments %r" % (bad,))
        mon.raises(ValueError, lambda: sf.compute(sysm, query_points=p), "query points without N_total")
        mon.raises(ValueError, lambda: sf.compute(sysm, N_total=5), "N_total without query points")


def surface(ob, k_max):
    """Lattice points near the coordinate planes of the octant, which the sampling target neglects."""
    h = [k_max * x / (2 * np.pi) for x in ob.L[: ob.d]]
    return sum(h) + (sum(h[a] * h[b] for a in range(3) for b in range(a)) if ob.d == 3 else 0) + 1

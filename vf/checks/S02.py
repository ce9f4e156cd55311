"""Diffraction patterns against the Fourier sum of the binned projection."""
import numpy as np
from vf import fr, geo
from vf.geo import f32, qrot, qconj

PHASES = dict(quick=[dict(variant="rel", dirs=["diffraction"], cases=10000, cap=70)], thorough=[dict(variant="rel", dirs=["diffraction"], cases=120000, cap=850)])
RULE = ("crystals, random and clustered systems in cubic boxes x grid/output sizes of both parities x zoom, peak width, weights x default, axis and random view orientations x 1-3 accumulated frames; every pixel "
        "compared with the bilinear interpolation of |sum w exp(ik.x)|^2/N at the wavevector of the pixel, computed as a direct sum over the points binned on the projected box; symmetry, non-negativity, centre, axes, "
        "translations by grid steps; non-trivial = pattern with structure away from the centre; distinct by (sizes, view class, weights, frames)")
REQUIRED = dict(pixels_judged=1000000, oblique_views=800, frames_accumulated=500, translations=100, bragg_peaks=200)
ASSUMPTIONS = ["points on the boundary of a grid cell are avoided; views for which two box faces project to equal areas are not judged",
               "pixel [i, j] is read as the wavevector (k_values[j], k_values[i]) of the view plane, which is how plot() labels it up to inversion"]

AX = np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [np.sqrt(.5), 0, 0, np.sqrt(.5)], [np.sqrt(.5), np.sqrt(.5), 0, 0], [.5, .5, .5, .5]])


def projection(q, L):
    """Projected box vectors (columns) of the face that is largest as seen along the view; None if undecided."""
    M = qrot(q, np.eye(3) * L).T          # columns are the rotated box vectors
    area = [abs(np.cross(M[:, (a + 1) % 3], M[:, (a + 2) % 3])[2]) for a in range(3)]
    o = np.argsort(area)
    if area[o[2]] - area[o[1]] < 1e-6 * L * L:
        return None
    b = int(o[2])
    return M[:2][:, [(b + 1) % 3, (b + 2) % 3]]


def intensity(bins, w, G, sigma):
    """P[i0, i1]: intensity at the reciprocal lattice vectors, index = h + G // 2."""
    h = np.arange(G) - G // 2
    E0 = np.exp(-2j * np.pi * np.outer(h, bins[:, 0]) / G)
    E1 = np.exp(-2j * np.pi * np.outer(h, bins[:, 1]) / G)
    F = (E0 * w) @ E1.T
    g = np.exp(-2 * np.pi ** 2 * sigma ** 2 * (h / G) ** 2)
    return np.abs(F * np.outer(g, g)) ** 2


def interpolate(P, x):
    """Bilinear; 0 outside.  Also returns which samples are decided."""
    G = P.shape[0]
    ok = np.all(np.minimum(np.abs(x), np.abs(x - (G - 1))) > 1e-6, axis=-1)
    inside = np.all((x >= 0) & (x <= G - 1), axis=-1)
    xi = np.clip(np.floor(x).astype(int), 0, max(G - 2, 0))
    f = x - xi
    a, b = xi[..., 0], xi[..., 1]
    a1, b1 = np.minimum(a + 1, G - 1), np.minimum(b + 1, G - 1)
    v = P[a, b] * (1 - f[..., 0]) * (1 - f[..., 1]) + P[a1, b] * f[..., 0] * (1 - f[..., 1]) + P[a, b1] * (1 - f[..., 0]) * f[..., 1] + P[a1, b1] * f[..., 0] * f[..., 1]
    return np.where(inside, v, 0.0), ok


def system(rng, L):
    k = int(rng.integers(4))
    ob = geo.OBox(L, L, L)
    if k == 0:
        m = int(rng.integers(1, 5))
        g = (np.stack(np.meshgrid(*[np.arange(m)] * 3, indexing="ij"), -1).reshape(-1, 3) + rng.random(3)) / m
        a = rng.integers(0, 3)
        if m > 1 and rng.random() < 0.5:
            g = g[np.round(g[:, a] * m - g[:, a].min() * m).astype(int) % 2 == 0]     # stripes: not symmetric under axis swaps
        p = ob.abs(g - np.floor(g))
    elif k == 1:
        p = geo.points(rng, ob, geo.nonzero_n(rng, 50), "clustered").astype(float)
    else:
        p = geo.points(rng, ob, geo.nonzero_n(rng, 50), "uniform").astype(float)
    return ob, f32(p)


def case(i, rng, mon):
    D = fr.freud.diffraction
    big = int(rng.integers(1, 3)) if rng.random() < 0.015 else 0        # larger grids, more frames
    G = int(rng.integers(4, 40)) if big != 1 else int(np.exp(rng.uniform(np.log(40), np.log(400))))
    O = int(rng.integers(3, 40) if rng.random() < 0.5 or big != 1 else np.exp(rng.uniform(np.log(40), np.log(400)))) if rng.random() < 0.6 else None
    dp = D.DiffractionPattern(G) if O is None else D.DiffractionPattern(grid_size=G, output_size=O)
    O = G if O is None else O
    mon.check(dp.grid_size == G and dp.output_size == O, "sizes")
    if rng.random() < 0.2:
        b, p = system(rng, 3.0)
        dp.compute((b.freud(), p), reset=bool(rng.random() < 0.5), zoom=2)
        if rng.random() < 0.5:
            dp.diffraction, dp.k_values, dp.k_vectors
    nf = int(rng.integers(4, 30)) if big == 2 else int(rng.integers(2, 4)) if rng.random() < 0.3 else 1
    tot, okall, done = np.zeros((O, O)), np.ones((O, O), bool), 0
    oblique = weighted = False
    scale = peak = 0.0
    for f in range(nf):
        L = float(np.float32(np.exp(rng.uniform(np.log(1), np.log(30)))))
        if rng.random() < 0.3:
            L = float(np.round(L) + 1)
        ob, p = system(rng, L)
        zoom = float(rng.choice([1, 2, 4, 4])) if rng.random() < 0.5 else float(rng.uniform(0.8, 9))
        pw = float(rng.choice([0.05, 0.5, 1, 2]) if rng.random() < 0.5 else rng.uniform(0, 3))
        r = rng.random()
        q, kw = np.array([1.0, 0, 0, 0]), {}
        view = "default"
        if r < 0.2:
            q = AX[int(rng.integers(len(AX)))]
            view = "axis"
        elif r < 0.8:
            q = rng.normal(size=4)
            if rng.random() < 0.4:     # rotation about one box axis
                a = int(rng.integers(3))
                q = np.where(np.arange(1, 4) == a + 1, q[1:], 0)
                q = np.concatenate([[rng.normal()], q])
            q = q / np.linalg.norm(q)
            view = "random"
        if view != "default":
            kw["view_orientation"] = q if rng.random() < 0.8 else q.tolist()
        elif rng.random() < 0.3:
            kw["view_orientation"] = None
        A = projection(q, L)
        if A is None:
            mon.event("tied_views")
            continue
        fr_ = (qrot(q, p.astype(float))[:, :2] @ np.linalg.inv(A).T + 0.5)
        x = (fr_ - np.floor(fr_)) * G
        clear = np.all(np.abs(x - np.round(x)) > 1e-9 * G, axis=1)
        if view != "default":
            clear = np.all(np.abs(x - np.round(x)) > 1e-7 * G, axis=1)
        if not clear.any():
            continue
        p, x = p[clear], x[clear]
        bins = np.floor(x).astype(int) % G
        N = len(p)
        w = np.ones(N)
        if rng.random() < 0.35:
            w = rng.uniform(0.1, 3, size=N)
            if rng.random() < 0.3:
                w = rng.integers(1, 4, size=N)
            if rng.random() < 0.3:       # scattering lengths of both signs
                v = w * np.where(rng.random(N) < 0.3, -1, 1)
                if abs(v.sum()) > 0.3 * np.abs(v).sum():
                    w = v
                    mon.event("signed_weights")
            kw["weights"] = w if rng.random() < 0.8 else w.tolist()
            w = np.asarray(w, float)
            w = w * N / w.sum()
            weighted = True
        if zoom != 4 or rng.random() < 0.5:
            kw["zoom"] = zoom
        if pw != 1 or rng.random() < 0.5:
            kw["peak_width"] = pw
        if done:
            kw["reset"] = False
        elif rng.random() < 0.5:
            kw["reset"] = True
        mon.describe(L=L, points=p, view=q, zoom=zoom, peak_width=pw, weights=kw.get("weights"), grid=G, output=O, frame=f)
        s = (ob.freud(), p)
        if rng.random() < 0.2:
            s = fr.freud.locality.AABBQuery(*s)
        rr = dp.compute(s, **kw)
        mon.check(rr is dp, "compute returns the object")
        oblique |= view == "random"
        if view == "random":
            mon.event("oblique_views")
        kvals = (np.arange(O) - O // 2) * 2 * np.pi / (L * zoom)
        P = intensity(bins, w, G, pw / zoom) / N
        KX, KY = np.meshgrid(kvals, kvals)                 # [i, j] -> (k_j, k_i)
        h = np.stack([KX, KY], -1) @ A / (2 * np.pi)       # A^T k / 2 pi
        want, ok = interpolate(P, h + G // 2)
        tot += want
        okall &= ok
        scale += N
        peak += np.abs(w).sum() ** 2 / N
        done += 1
        if f == nf - 1 or rng.random() < 0.4:
            d = np.asarray(dp.diffraction)
            mon.check(d.shape == (O, O) and np.all(d >= 0), "pattern is a non-negative square")
            e = np.abs(d - tot / done)
            lim = 2e-6 * peak / done + 1e-9
            bad = okall & (e > lim)
            if bad.any():
                k = tuple(np.argwhere(bad)[0])
                mon.check(False, "pixel %s (centre %d): intensity %.9g, expected %.9g (%d of %d pixels differ)" % (k, O // 2, d[k], tot[k] / done, bad.sum(), bad.size))
            mon.check(True, "")
            mon.event("pixels_judged", int(okall.sum()))
            c = O // 2
            if okall[c, c]:
                mon.close(d[c, c], scale / done, "S(k=0) is the number of points", rtol=1e-6)
            n = O - c - 1     # symmetric part around the centre
            sub = d[c - n: c + n + 1, c - n: c + n + 1]
            so = okall[c - n: c + n + 1, c - n: c + n + 1]
            m = so & so[::-1, ::-1]
            if G % 2 == 1:    # the reciprocal grid itself is inversion symmetric
                mon.check(np.all(np.abs(sub - sub[::-1, ::-1])[m] <= 2 * lim), "inversion symmetry about k = 0")
            mon.close(dp.k_values, kvals, "k_values", rtol=2e-6, atol=1e-6 * np.abs(kvals).max())
            mon.check(dp.N_points == N, "N_points")
            kv = np.asarray(dp.k_vectors)
            mon.check(kv.shape == (O, O, 3), "k_vectors shape")
            back = qconj(q)
            right = qrot(back, np.stack([KX, KY, 0 * KX], -1))
            transposed = qrot(back, np.stack([KY, KX, 0 * KX], -1))
            tk = 1e-5 * (np.abs(kvals).max() + 1e-12)
            if np.abs(kv - right).max() > tk:
                mon.check(np.abs(kv - transposed).max() <= tk, "k_vectors are the wavevectors of the view plane", got=kv[0], want=right[0])
                mon.known("k_vectors-transposed")
            if done > 1:
                mon.event("frames_accumulated")
            off = d.copy()
            off[max(c - 1, 0): c + 2, max(c - 1, 0): c + 2] = 0
            if off.max() > 0.1 * scale / done:
                mon.event("bragg_peaks")
            if off.max() > 1e-3 * scale / done:
                mon.sig(G % 2, O % 2, min(G // 6, 5), min(O // 6, 5), view, "weights" in kw, nf)
    if done == 1 and nf == 1 and view == "default" and rng.random() < 0.8:
        # translation by whole grid steps (and anything along the view)
        d0 = np.array(dp.diffraction)
        st = np.append(rng.integers(-G, G + 1, size=2) / G, rng.uniform(-1, 1)) * L
        p2 = p.astype(float).copy()
        p2[:, :2] = ((bins + 0.5) / G - 0.5) * L         # bin centres: safely away from cell boundaries
        kk = {k: v for k, v in kw.items() if k != "reset"}
        a = np.array(dp.compute((ob.freud(), f32(p2)), **kk).diffraction)
        b = np.array(dp.compute((ob.freud(), f32(ob.wrap(p2 + st))), **kk).diffraction)
        mon.close(a, d0, "pattern of the bin centres", atol=2e-6 * N)
        mon.close(b, d0, "pattern after a translation", atol=2e-6 * N)
        mon.event("translations")
    if done and rng.random() < 0.03:
        im = dp.to_image()
        mon.check(im.shape == (O, O, 4) and im.dtype == np.uint8, "to_image shape and type")
    if rng.random() < 0.02:
        pts = np.zeros((1, 3), np.float32)
        B = fr.freud.box.Box
        for b in (B(3, 4, 3), B(3, 3, 3, 0.2), B.square(3), B(3, 3, 3.01)):
            mon.raises(ValueError, lambda: D.DiffractionPattern(8).compute((b, pts)), "box %s" % b)
        mon.raises(ValueError, lambda: D.DiffractionPattern(8).compute((B.cube(3), pts), weights=np.ones(2)), "weights of the wrong length")
        mon.raises(AttributeError, lambda: D.DiffractionPattern(8).diffraction, "diffraction before compute")

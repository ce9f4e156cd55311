"""GaussianDensity and SphereVoxelization against brute force over all voxels and points."""
import numpy as np
from vf import fr, geo, nb
from vf.geo import f32

PHASES = dict(quick=[dict(variant="rel", dirs=["density"], cases=30000, cap=70)], thorough=[dict(variant="rel", dirs=["density"], cases=300000, cap=850)])
RULE = ("random orthorhombic boxes (2D/3D, all periodicity flags) x grid widths (1 to 24, unequal) x r_max up to half the box x points (uniform, on faces, lattice, coincident) x sigma, values, "
        "objects reused; every voxel compared with brute force; non-trivial = at least one voxel within r_max of a point; distinct by (class, box class, width pattern, mode, "
        "r_max in voxels)")
REQUIRED = dict(voxels_reached=50000, voxels_outside=20000)
ASSUMPTIONS = ["triclinic boxes are outside this property", "voxel centers within rounding of r_max may count either way"]


def case(i, rng, mon):
    dim = 2 if rng.random() < 0.5 else 3
    exact = rng.random() < 0.25
    if exact:
        ob = geo.exact_box(rng, dim)
    else:
        ob = geo.random_box(rng, dim, tilt=False, periodic="random" if rng.random() < 0.4 else True)
    D = fr.freud.density
    hi = 24 if dim == 2 else 9
    big = not exact and rng.random() < 0.01
    if big:
        hi = int(np.exp(rng.uniform(np.log(hi), np.log(300 if dim == 2 else 45))))
    w = rng.integers(1, hi + (1 if big else 0), size=3)
    if exact:
        w = 2 ** rng.integers(0, 4 if dim == 3 else 5, size=3)
    if rng.random() < 0.3:
        w[:] = w[0]
    if dim == 2:
        w[2] = 1
    r_max = float(np.float32(ob.L[: dim].min() / 2 * rng.choice([0.1, 0.3, 0.6, 0.95, 1.0]) * (rng.uniform(0.5, 1) if not exact else 1)))
    if exact:
        r_max = max(0.25, np.floor(r_max * 4) / 4)
    if (w[:dim] == w[0]).all() and rng.random() < 0.7:
        width = int(w[0])
    elif dim == 2 and rng.random() < 0.5:
        width = (int(w[0]), int(w[1]))
    else:
        width = tuple(int(x) for x in w)
    if isinstance(width, tuple) and rng.random() < 0.4:
        width = list(width)
    which = "gauss" if rng.random() < 0.55 else "sphere"
    sigma = float(np.float32(r_max * rng.uniform(0.1, 2)))
    obj = D.GaussianDensity(width, r_max, sigma) if which == "gauss" else D.SphereVoxelization(width, r_max)
    mon.close(obj.r_max, r_max, "r_max", rtol=1e-7)
    if which == "gauss":
        mon.close(obj.sigma, sigma, "sigma", rtol=1e-7)
    for rep in range(1 + (rng.random() < 0.2)):
        n = geo.nonzero_n(rng, 30)
        if rng.random() < 0.3 or big:
            n = int(rng.integers(1, 4)) if big else 1
        mode = geo.MODES[int(rng.integers(len(geo.MODES)))]
        p = geo.exact_points(rng, ob, n, step=float(rng.choice([0.125, 0.25]))) if exact else geo.points(rng, ob, n, mode)
        if exact and n and rng.random() < 0.3:      # offsets of exactly half voxels
            p[:, :dim] += 0.0625
        vals = None
        if which == "gauss" and rng.random() < 0.5:
            vals = f32(rng.normal(size=n)) if rng.random() < 0.7 else rng.integers(0, 3, size=n)
        mon.describe(box=ob.params(), points=p, width=width, r_max=r_max, sigma=sigma, cls=which, values=vals)
        box = ob.freud()
        L = fr.freud.locality
        sysm = (box, p)
        if n and rng.random() < 0.3 and ob.periodic.all():
            sysm = L.AABBQuery(box, p)
        r = obj.compute(sysm, vals) if vals is not None else obj.compute(sysm)
        mon.check(r is obj, "compute returns the object")
        got = obj.density if which == "gauss" else obj.voxels
        c = np.stack(np.meshgrid(*[(np.arange(w[a]) + 0.5) * ob.L[a] / w[a] - ob.L[a] / 2 if a < dim else np.zeros(1) for a in range(3)], indexing="ij"), -1)
        delta = c[..., None, :] - p.astype(float)
        for a in range(dim):
            if ob.periodic[a]:
                delta[..., a] -= ob.L[a] * np.round(delta[..., a] / ob.L[a])
        r2 = (delta ** 2).sum(-1)
        tol = 0.0 if exact else 4e-6 * ob.scale() * (r_max + 1e-3)
        # centers exactly r_max away are outside (exact grids)
        must, may = r2 < r_max ** 2 - tol, r2 < r_max ** 2 + tol
        shape = tuple(int(x) for x in (w if dim == 3 else w[:2]))
        want_shape = shape if dim == 3 else tuple(x for x in shape if x != 1)
        mon.check(got.shape == want_shape, "grid shape %s, expected %s" % (got.shape, want_shape))
        g = np.asarray(got, float).reshape(must.shape[:-1])
        if which == "sphere":
            mu, ma = must.any(-1), may.any(-1)
            mon.check(np.isin(g, (0, 1)).all(), "voxels are 0 or 1")
            bad = (mu & (g != 1)) | (~ma & (g != 0))
            if bad.any():
                k = tuple(np.argwhere(bad)[0])
                mon.check(False, "voxel %s is %d but its center is %g from the nearest point (r_max %g)" % (k, g[k], np.sqrt(r2[k].min()) if n else np.inf, r_max))
            mon.check(True, "voxels")
        else:
            s = float(np.float32(sigma))
            v = np.ones(n) if vals is None else np.asarray(vals, float)
            G = np.exp(-r2 / (2 * s * s)) / np.sqrt(2 * np.pi * s * s) ** dim
            amb = np.where(may & ~must, np.abs(v) * G, 0).sum(-1)
            want = np.where(must, v * G, 0).sum(-1)
            mag = np.where(may, np.abs(v) * G * (1 + r2 / (s * s) * 0.1 + ob.scale() * np.sqrt(r2) / (s * s) * 0.3), 0).sum(-1)
            bad = np.abs(g - want) > amb * 1.001 + 1e-5 * mag + 1e-30
            if bad.any():
                k = tuple(np.argwhere(bad)[0])
                mon.check(False, "density at voxel %s is %r, expected %r" % (k, g[k], want[k]), distances=np.sqrt(np.sort(r2[k])))
            mon.check(True, "density")
        mon.check(obj.box == box, "box")
        ww = obj.width
        mon.check([int(x) for x in ww] == [int(x) for x in w], "width %s" % (ww,))
        mon.event("voxels_reached", int(must.any(-1).sum()))
        mon.event("voxels_outside", int((~may.any(-1)).sum()))
        mon.event("point_voxel_pairs", int(must.sum()))
        if must.any():
            mon.sig(which, ob.key(), mode if not exact else "exact", "eq" if (w[:dim] == w[0]).all() else "ne", int(r_max / (ob.L[:dim] / w[:dim]).min()) // 2, rep)
    if rng.random() < 0.03:
        for a in ((3, 0.0), (3, -1.0)):
            mon.raises(ValueError, lambda: D.SphereVoxelization(*a), "SphereVoxelization%s" % (a,))
            mon.raises(ValueError, lambda: D.GaussianDensity(*a, 1.0), "GaussianDensity%s" % (a,))
        mon.raises(ValueError, lambda: D.GaussianDensity((1, 2, 3, 4), 1.0, 1.0), "width of length 4")

"""Periodic buffers, unit-cell replication and random systems against explicit image enumeration."""
import itertools
import numpy as np
from vf import fr, geo, nb
from vf.geo import f32, OBox

PHASES = dict(quick=[dict(variant="rel", dirs=[], cases=8000, cap=70)], thorough=[dict(variant="rel", dirs=[], cases=250000, cap=850)])
RULE = ("random boxes (2D/3D, tilted) x points x buffers (distance / images, per dimension, zero and large) x include_input_points; unit cells (standard and random) x replicas x scale x noise; "
        "random systems; results compared with an enumeration of the images; non-trivial = at least one image judged; distinct by (kind, box class, buffer or replica class, counts)")
REQUIRED = dict(images_judged=50000, unit_cell_points=20000, random_systems=100)
ASSUMPTIONS = ["images within single-precision rounding of a face of the buffer region may be in or out",
               "replicated unit cells are judged up to the documented-in-code global shift when tilted and mixed even/odd replicas are used"]


def match(mon, what, ob, got, want, tol, must=None):
    """got is exactly the multiset want modulo the box (entries with must False are optional)."""
    n, m = len(got), len(want)
    if must is None:
        must = np.ones(m, bool)
    mon.check(must.sum() <= n <= m, what + ": %d points, expected %d" % (n, must.sum()), got=got, want=want)
    if not n:
        return
    D = np.sqrt((ob.wrap(np.asarray(got, float)[:, None] - want[None]) ** 2).sum(-1)) if ob is not None else np.linalg.norm(
        np.asarray(got, float)[:, None] - want[None], axis=-1)
    k = D.argmin(1)
    d = D[np.arange(n), k]
    mon.check(d.max() <= tol, what + ": point that is no image of its particle", got=got[int(d.argmax())], distance=d.max(), want=want)
    c = np.bincount(k, minlength=m)
    mon.check(c.max() <= 1, what + ": image returned more than once", image=want[int(c.argmax())])
    miss = must & (c != 1)
    mon.check(not miss.any(), what + ": image missing", image=want[miss][:1])


def buffer_case(rng, mon):
    L = fr.freud.locality
    exact = rng.random() < 0.3
    n = geo.nonzero_n(rng, 40)
    if exact:
        ob = geo.exact_box(rng)
        p = geo.exact_points(rng, ob, n, step=float(rng.choice([0.25, 0.5, 1.0])))
    else:
        ob = geo.random_box(rng)
        p = geo.points(rng, ob, n)
    box = ob.freud()
    images = bool(rng.random() < 0.5)
    inc = bool(rng.random() < 0.5)
    if images:
        b = rng.integers(0, 4 if n < 20 else 3, size=3).astype(float)
        if rng.random() < 0.1:
            b = b - rng.choice([0, 0.5, 0.25], size=3)
            b = np.maximum(b, 0)
    elif exact:
        b = rng.integers(0, 7, size=3) * 0.5
    else:
        b = np.where(ob.L > 0, ob.L, 1) * rng.uniform(0, 1.6, size=3) ** (1 if rng.random() < 0.8 else 3)
        b[rng.random(3) < 0.15] = 0
        if rng.random() < 0.2:
            b = np.where(ob.L > 0, ob.L, 1) * rng.integers(0, 2, size=3)
        b = b.astype(np.float32).astype(float)
    scalar = rng.random() < 0.4
    if scalar:
        b[:] = b[0] if not (not images and b[0] > 1.7 * ob.L[: ob.d].min()) else ob.L[: ob.d].min() / 2
        b = b.astype(np.float32).astype(float)
    arg = float(b[0]) if scalar else [b.tolist(), tuple(b.tolist()), np.array(b)][int(rng.integers(3))]
    mon.describe(box=ob.params(), points=p, buffer=b, images=images, include=inc)
    k = int(rng.integers(3))
    sysm = (box, p) if k == 0 else L.AABBQuery(box, p) if k == 1 else L.NeighborQuery.from_system((box, p))
    pb = L.PeriodicBuffer()
    if rng.random() < 0.3:      # earlier use must not show
        pb.compute((fr.freud.box.Box.cube(3), f32(rng.normal(size=(3, 3)))), 1, images=True)
        pb.buffer_points
    r = pb.compute(sysm, arg, images=images, include_input_points=inc)
    mon.check(r is pb, "compute returns the object")
    pts, ids, bb = pb.buffer_points, pb.buffer_ids, pb.buffer_box
    ids = np.asarray(ids).astype(int)
    mon.check(pts.shape == (len(ids), 3), "buffer_points and buffer_ids have one entry per image")
    mon.check(len(ids) == 0 or (ids.min() >= 0 and ids.max() < n), "buffer_ids are point indices")
    f = lambda x: float(np.float32(x))
    if images:
        ni = np.ceil(b).astype(int)
        Lb = (1 + ni) * ob.L
    else:
        ni = np.array([int(np.ceil(b[a] / ob.L[a])) + 1 if a < ob.d else 0 for a in range(3)])
        Lb = ob.L + 2 * b
    if ob.is2D:
        ni[2] = 0
        Lb[2] = 0
    bo = OBox(Lb[0], Lb[1], Lb[2], ob.xy, ob.xz, ob.yz, is2D=ob.is2D)
    mon.check(bool(bb.is2D) == ob.is2D, "buffer box dimensionality")
    mon.close([bb.Lx, bb.Ly, 0 if ob.is2D else bb.Lz, bb.xy, bb.xz, bb.yz], [*Lb, ob.xy, ob.xz, ob.yz], "buffer box", atol=1e-7, rtol=1e-6)
    grid = list(itertools.product(*[range(0 if images else -m, m + 1) for m in ni]))
    tol = 4 * geo.EPS * (ob.scale() + np.abs(bo.M).sum())
    shifts = np.array(grid, float) @ ob.M.T
    origin = np.array([g == (0, 0, 0) for g in grid])
    ft = 0 if exact else tol / np.array([h if np.isfinite(h) else 1 for h in bo.planes()]).min()
    for a in range(n):
        img = p[a].astype(float) + shifts
        keep = ~origin if not inc else np.ones(len(img), bool)
        if images:
            must = may = keep
        else:
            fb = bo.frac(img)
            may = keep & np.all((fb >= -ft) & (fb < 1 + (ft if ft else 0)), axis=1)
            must = keep & np.all((fb >= (ft if ft else 0)) & (fb < 1 - ft), axis=1)
            if exact:
                # the single-precision fraction of exact data can still round at the faces when the enlarged box is no power of two
                pow2 = np.all(np.log2(np.maximum(Lb[: ob.d], 1e-9)) % 1 == 0)
                if not pow2:
                    may = keep & np.all((fb >= -1e-6) & (fb < 1 + 1e-6), axis=1)
                    must = keep & np.all((fb >= 1e-6) & (fb < 1 - 1e-6), axis=1)
        match(mon, "images of point %d" % a, bo if images else None, pts[ids == a], img[may], tol + 1e-6, must[may])
        mon.event("images_judged", int(must.sum()))
    if images:
        fb = bo.frac(pts)
        mon.check(np.all((fb >= -1e-5) & (fb <= 1 + 1e-5)), "image points lie inside the buffer box", frac=fb)
    if ob.is2D:
        mon.check(np.all(pts[:, 2] == 0) or np.any(p[:, 2] != 0), "2D buffers stay in the plane")
    if rng.random() < 0.03:
        mon.raises(ValueError, lambda: pb.compute((box, p), [1, 2]), "buffer of length 2")
        bad = [1.0, 1.0, 1.0]
        bad[int(rng.integers(3))] = -0.5
        mon.raises(ValueError, lambda: pb.compute((box, p), bad), "negative buffer")
        pb.compute(sysm, arg, images=images, include_input_points=inc)
        mon.equal(pb.buffer_points, pts, "same result after rejected calls")
    if len(ids):
        mon.sig("buffer", ob.key(), images, inc, tuple(np.ceil(b / np.where(ob.L > 0, ob.L, 1) * 4 if not images else b).astype(int)), exact)


def std_cells(rng):
    U = fr.freud.data.UnitCell
    k = int(rng.integers(9))
    s3 = np.sqrt(3)
    if k == 0:
        return "hcp", U.hcp(), OBox(1, s3 / 2, np.sqrt(8 / 3), -1 / s3), [[1 / 3, 2 / 3, 1 / 4], [2 / 3, 1 / 3, 3 / 4]]
    if k == 1:
        return "fcc", U.fcc(), OBox(1, 1, 1), [[.5, .5, 0], [.5, 0, .5], [0, .5, .5], [0, 0, 0]]
    if k == 2:
        return "bcc", U.bcc(), OBox(1, 1, 1), [[.5, .5, .5], [0, 0, 0]]
    if k == 3:
        return "sc", U.sc(), OBox(1, 1, 1), [[0, 0, 0]]
    if k == 4:
        return "square", U.square(), OBox(1, 1), [[0, 0, 0]]
    if k == 5:
        a, c = float(rng.uniform(0.3, 4)), bool(rng.random() < 0.5)
        if rng.random() < 0.2:
            return "rectangular", U.rectangular(), OBox(1, 2), [[0, 0, 0]]
        return "rectangular", U.rectangular(aspect=a, centered=c), OBox(1, a), [[0, 0, 0]] + ([[.5, .5, 0]] if c else [])
    if k == 6:
        a, th = float(rng.uniform(0.3, 4)), float(rng.uniform(20, 160))
        t = np.deg2rad(th)
        return "oblique", U.oblique(a, th), OBox(1, a * np.sin(t), 0, np.cos(t) / np.sin(t)), [[0, 0, 0]]
    if k == 7:
        return "hex", U.hex(), OBox(1, s3), [[0, 0, 0], [.5, .5, 0]]
    return "graphene", U.graphene(), OBox(1, s3), [[0, 0, 0], [0, 1 / 3, 0], [.5, 5 / 6, 0], [.5, .5, 0]]


def cell_case(rng, mon):
    if rng.random() < 0.6:
        name, uc, ob, basis = std_cells(rng)
        basis = np.array(basis, float)
    else:
        name, ob = "custom", geo.random_box(rng, lo=1, hi=6)
        basis = rng.random((int(rng.integers(1, 6)), 3))
        if rng.random() < 0.3:
            basis = np.round(basis * 4) / 4 % 1
        if ob.is2D:
            basis[:, 2] = 0
        if rng.random() < 0.15:
            basis = np.zeros((1, 3))
            uc = fr.freud.data.UnitCell(ob.freud())
        else:
            uc = fr.freud.data.UnitCell(ob.freud(), basis)
    b = uc.box
    mon.check(uc.dimensions == ob.d and bool(b.is2D) == ob.is2D, name + ": dimensions")
    mon.close([b.Lx, b.Ly, b.Lz, b.xy, b.xz, b.yz], [*ob.L, ob.xy, ob.xz, ob.yz], name + ": cell geometry", atol=2e-6, rtol=2e-6)
    ob = OBox(b.Lx, b.Ly, b.Lz, b.xy, b.xz, b.yz, is2D=ob.is2D)
    mon.check(np.shape(uc.basis_positions) == basis.shape, name + ": basis size")
    # the same basis up to reordering and lattice translations
    d = np.asarray(uc.basis_positions, float) - basis
    mon.check(np.abs(d - np.round(d)).max() < 1e-7, name + ": documented basis", got=uc.basis_positions, want=basis)
    mon.close(np.stack([uc.a1, uc.a2, uc.a3], 1)[:ob.d, :ob.d], ob.M[:ob.d, :ob.d], name + ": lattice vectors", atol=2e-6)
    mon.close(uc.lattice_vectors[:ob.d, :ob.d], ob.M[:ob.d, :ob.d], name + ": lattice_vectors", atol=2e-6)
    n = rng.integers(1, 6 if len(basis) * 125 < 400 else 5, size=3)
    if ob.is2D:
        n = rng.integers(1, 9, size=3)
        n[2] = 1
    integer = rng.random() < 0.4
    if integer:
        n[: ob.d] = n[0]
    arg = int(n[0]) if integer else tuple(int(x) for x in n) if rng.random() < 0.5 else [int(x) for x in n]
    scale = 1.0 if rng.random() < 0.4 else float(np.float32(np.exp(rng.uniform(-2, 2))))
    mon.describe(cell=name, box=ob.params(), basis=basis, replicas=n, scale=scale)
    kw = dict(num_replicas=arg)
    if scale != 1 or rng.random() < 0.5:
        kw["scale"] = scale
    if np.all(n == 1) and rng.random() < 0.5:
        del kw["num_replicas"]
    big, pos = uc.generate_system(**kw)
    N = int(np.prod(n))
    mon.check(pos.shape == (N * len(basis), 3), "%s: %s points for %s replicas of %d" % (name, pos.shape, n, len(basis)))
    Lb = ob.L * n * scale
    mon.check(bool(big.is2D) == ob.is2D, "system dimensionality")
    mon.close([big.Lx, big.Ly, big.Lz, big.xy, big.xz, big.yz], [*Lb, ob.xy, ob.xz, ob.yz], "enlarged box", atol=1e-7, rtol=2e-6)
    bo = OBox(Lb[0], Lb[1], Lb[2], ob.xy, ob.xz, ob.yz, is2D=ob.is2D)
    fb = bo.frac(pos)
    mon.check(np.all((fb >= -1e-5) & (fb <= 1 + 1e-5)), "positions lie inside the box", frac=fb)
    # positions in units of unit-cell vectors, relative to the cell corner
    u = fb * n
    if ob.is2D:
        u[:, 2] = 0
    want = np.repeat(basis, N, axis=0)
    anchored = ob.ortho or len(set(n[: ob.d] % 2)) == 1
    dlt = u - want
    if not anchored:
        dlt = dlt - dlt[0]
    dlt = dlt[:, : ob.d]
    err = np.abs(dlt - np.round(dlt)).max()
    mon.check(err < 2e-5 * n.max() * (1 + abs(ob.xy) + abs(ob.xz) + abs(ob.yz)), "%s: positions are not on the basis of the lattice (in order of the basis)" % name,
              err=err, u=u, want=want)
    cells = np.round(dlt).astype(int) % n[: ob.d]
    code = np.ravel_multi_index(cells.T, tuple(n[: ob.d]))
    for k in range(len(basis)):
        c = np.bincount(code[k * N:(k + 1) * N], minlength=N)
        mon.check(np.all(c == 1), "%s: every cell holds basis position %d exactly once" % (name, k), counts=c)
    mon.event("unit_cell_points", len(pos))
    noise = rng.random() < 0.4
    if noise:
        s = float(np.exp(rng.uniform(-7, -2)))
        sd = int(rng.integers(0, 2 ** 31))
        np.random.seed(int(rng.integers(100)))
        b1, p1 = uc.generate_system(**kw, sigma_noise=s, seed=sd)
        np.random.seed(int(rng.integers(100)))
        b2, p2 = uc.generate_system(**kw, sigma_noise=s, seed=sd)
        mon.equal(p1, p2, "noise is reproducible from the seed")
        _, p3 = uc.generate_system(**kw, sigma_noise=s, seed=sd + 1)
        mon.check(not np.array_equal(p1, p3), "other seeds give other noise")
        mon.check(b1 == big, "noise leaves the box alone")
        f1 = bo.frac(p1)
        mon.check(np.all((f1 >= -1e-5) & (f1 <= 1 + 1e-5)), "noisy positions lie inside the box")
        e = bo.wrap(p1.astype(float) - pos)[:, : ob.d]
        mon.check(not ob.is2D or np.all(p1[:, 2] == 0), "2D noise stays in the plane")
        # six standard errors of the sample standard deviation
        m = e.size
        if s * 8 < bo.rlim():
            sig = np.sqrt((e ** 2).mean())
            lim = s * (6 / np.sqrt(2 * m) + 0.01) + 3 * bo.tol(pos)
            if m >= 20:
                mon.check(abs(sig - s) < lim, "noise amplitude %g, requested %g" % (sig, s))
            mon.check(np.abs(e).max() < 8 * s + 3 * bo.tol(pos), "noise outlier", worst=np.abs(e).max(), sigma=s)
        mon.event("noisy_systems")
    if rng.random() < 0.1:
        bad = [(0, 1, 1), (1, -1, 1), (1.5, 1, 1), -2, 0][int(rng.integers(5))]
        mon.raises(ValueError, lambda: uc.generate_system(bad), "replicas %s" % (bad,))
        if ob.is2D:
            mon.raises(ValueError, lambda: uc.generate_system((2, 2, 2)), "2D cell replicated in z")
    mon.sig("cell", name, ob.key(), tuple(n), integer, round(np.log(scale), 1) if scale != 1 else 1, noise)


def random_case(rng, mon):
    Ls, n, d2, seed = float(np.float32(np.exp(rng.uniform(-1, 4)))), int(rng.integers(0, 200)), bool(rng.random() < 0.5), int(rng.integers(0, 2 ** 31))
    np.random.seed(1)
    st = np.random.get_state()[1].copy()
    box, p = fr.freud.data.make_random_system(Ls, n, is2D=d2, seed=seed)
    mon.describe(L=Ls, n=n, is2D=d2, seed=seed)
    mon.check(p.shape == (n, 3), "number of points")
    mon.check(bool(box.is2D) == d2 and box.Lx == box.Ly == np.float32(Ls) and (d2 or box.Lz == box.Lx) and box.xy == box.xz == box.yz == 0, "cubic or square box")
    h = Ls / 2 * (1 + 1e-6)
    mon.check(np.all(np.abs(p) <= h), "points inside the box")
    if d2:
        mon.check(np.all(p[:, 2] == 0), "2D points in the plane")
    _, p2 = fr.freud.data.make_random_system(Ls, n, is2D=d2, seed=seed)
    mon.equal(p2, p, "reproducible from the seed")
    if n > 3:
        _, p3 = fr.freud.data.make_random_system(Ls, n, is2D=d2, seed=seed + 1)
        mon.check(not np.array_equal(p3, p), "other seeds give other points")
        _, p4 = fr.freud.data.make_random_system(Ls, n, is2D=d2)
        _, p5 = fr.freud.data.make_random_system(Ls, n, is2D=d2)
        mon.check(not np.array_equal(p4, p5), "without seed the points differ")
    if n >= 50:
        u = p[:, : 2 if d2 else 3] / Ls
        se = 1 / np.sqrt(12 * n)
        mon.check(np.all(np.abs(u.mean(0)) < 6 * se), "points fill the box uniformly", mean=u.mean(0))
        mon.check(np.all(np.abs(np.sqrt((u ** 2).mean(0)) - np.sqrt(1 / 12)) < 0.2 * 6 / np.sqrt(n)), "points fill the box uniformly (spread)")
        for a in range(u.shape[1]):
            for b in range(a):
                c = np.corrcoef(u[:, a], u[:, b])[0, 1]
                mon.check(abs(c) < 6.5 / np.sqrt(n), "coordinates are independent", corr=c)
    mon.event("random_systems")
    mon.sig("random", d2, n, round(np.log(Ls)))


def case(i, rng, mon):
    r = rng.random()
    (buffer_case if r < 0.5 else cell_case if r < 0.94 else random_case)(rng, mon)

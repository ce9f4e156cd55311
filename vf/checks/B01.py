"""Box arithmetic against a double-precision lattice model."""
import numpy as np
from vf import fr, geo
from vf.geo import OBox, f32

PHASES = dict(quick=[dict(variant="rel", dirs=[], cases=24000, cap=60)], thorough=[dict(variant="rel", dirs=[], cases=1500000, cap=800)])
RULE = ("random boxes (2D/3D, tilted, partially periodic, exact dyadic) x point arrays (in box, on faces, many images away, single, empty); every Box "
        "method is called and compared with a double-precision lattice model; non-trivial = at least one vector actually moved by wrapping; "
        "distinct by (dimension, tilt, periodicity, point mode, images class, exactness)")
REQUIRED = dict(wrapped_vectors=1000, face_vectors=50, distances=1000)
ASSUMPTIONS = ["vectors within single-precision rounding of a face may be assigned to either side (except on exact dyadic grids)"]


def case(i, rng, mon):
    exact = rng.random() < 0.3
    if exact:
        ob = geo.exact_box(rng)
        if rng.random() < 0.4:
            ob = OBox(*ob.L, is2D=ob.is2D, periodic=rng.random(3) < 0.5)
    else:
        ob = geo.random_box(rng, periodic="random", lo=0.5, hi=50, maxtilt=1.5)
    box = ob.freud()
    n = int(rng.integers(0, 4)) if rng.random() < 0.2 else int(rng.integers(4, 60))
    far = rng.random() < 0.3
    if exact:
        k = int(rng.choice([1, 3, 20]))
        x = np.zeros((n, 3))
        for a in range(ob.d):
            m = int(ob.L[a] / 0.25)
            x[:, a] = rng.integers(-k * m, k * m + 1, size=n) * 0.25
            on = rng.random(n) < 0.3
            x[on, a] = (rng.integers(-k, k, size=on.sum()) + 0.5) * ob.L[a]
        x = f32(x)
        mode = "exact"
    else:
        mode = geo.MODES[int(rng.integers(len(geo.MODES)))]
        x = geo.points(rng, ob, n, mode)
        kk = 40 if far else 2
        img0 = rng.integers(-kk, kk + 1, size=(n, 3))
        if ob.is2D:
            img0[:, 2] = 0
        x = f32(x + img0 @ ob.M.T)
    mon.describe(box=ob.params(), x=x, mode=mode)
    tol = 0.0 if exact else ob.tol(x)
    per = ob.periodic.copy()
    if ob.is2D:
        per[2] = False
    h = ob.planes()
    ft = (tol / h.min()) * 2 if tol else 0.0
    x64 = x.astype(np.float64)

    # -- fractional / absolute
    fg = box.make_fractional(x)
    fw = ob.frac(x64)
    mon.close(fg, fw, "make_fractional", atol=ft + 1e-7 * 0, rtol=0)
    fr_in = rng.uniform(-2, 3, size=(n, 3)) if not exact else rng.integers(-8, 9, size=(n, 3)) / 4
    fr_in = f32(fr_in)
    mon.close(box.make_absolute(fr_in), ob.abs(fr_in), "make_absolute", atol=0 if exact else ob.tol() * 8, rtol=0)
    if not ob.is2D or np.all(x[:, 2] == 0):
        mon.close(box.make_absolute(fg), x64, "make_absolute(make_fractional(x)) == x", atol=tol * 4, rtol=0)

    # -- wrap
    w = box.wrap(x)
    mon.check(w.dtype == np.float32 and w.shape == x.shape, "wrap result layout")
    w64 = w.astype(np.float64)
    if n:
        k = (x64 - w64) @ ob.Mi.T
        if ob.is2D:
            k[:, 2] = 0
        mon.close(k[:, per], np.round(k[:, per]), "wrap moves by integer lattice vectors", atol=ft * 2, rtol=0)
        if not per.any():
            mon.close(w, x, "wrap of a non-periodic box", atol=tol * 2, rtol=0)
        else:
            mon.close(k[:, ~per], np.zeros_like(k[:, ~per]), "wrap leaves non-periodic directions alone", atol=ft * 2, rtol=0)
        f2 = ob.frac(w64)
        if exact:
            ok = (f2[:, per] >= 0) & (f2[:, per] < 1)
        else:
            ok = (f2[:, per] >= -ft * 2) & (f2[:, per] <= 1 + ft * 2)
        mon.check(ok.all(), "wrapped fractional coordinates in [0,1)", f=f2, w=w)
        if ob.is2D:
            mon.check(np.all(w[:, 2] == 0), "2D wrap keeps z at 0", w=w)
        moved = np.abs(np.round(k[:, per])).sum()
        mon.event("wrapped_vectors", n)
        if moved:
            mon.sig(ob.key(), mode, "far" if far else "near", "single" if n == 1 else "many")
        face = np.abs(fw - np.round(fw))[:, : ob.d].min(axis=1) <= ft
        mon.event("face_vectors", face.sum())
    # -- images and unwrapping
    img = box.get_images(x)
    if n:
        fl = np.floor(fw)
        if ob.is2D:
            fl[:, 2] = 0
        amb = (np.abs(fw - np.round(fw)) <= ft) if not exact else np.zeros_like(fw, bool)
        mon.check(np.all((img == fl) | (amb & (np.abs(img - fw) < 1.5))), "get_images is the image of the point", img=img, want=fl)
        un = box.unwrap(w, img)
        if per[: ob.d].all():
            mon.close(un, x64, "unwrap(wrap(x), get_images(x)) == x", atol=tol * 4, rtol=0)
        im = rng.integers(-5, 6, size=(n, 3)).astype(np.int32)
        want = x64 + (im if not ob.is2D else im * [1, 1, 0]) @ ob.M.T
        mon.close(box.unwrap(x, im), want, "unwrap adds image lattice vectors", atol=(tol + ob.tol() * 20) * (not exact), rtol=0)
        mon.close(box.unwrap(x, im[0]), x64 + (im[0] * ([1, 1, 0] if ob.is2D else 1)) @ ob.M.T, "unwrap broadcasts one image",
                  atol=(tol + ob.tol() * 20) * (not exact), rtol=0)
        mon.close(np.atleast_2d(box.unwrap(x[0], im)), x64[0] + (im * ([1, 1, 0] if ob.is2D else 1)) @ ob.M.T, "unwrap broadcasts one vector",
                  atol=(tol + ob.tol() * 20) * (not exact), rtol=0)
        # -- containment ignores periodicity
        c = box.contains(x)
        inside = np.all((fw >= 0) & (fw < 1), axis=1)
        near = np.any(np.abs(fw - np.round(fw)) <= ft, axis=1) & (tol > 0)
        if ob.is2D and tol:
            near = np.any((np.abs(fw - np.round(fw)) <= ft)[:, :2], axis=1)
        mon.check(c.dtype == bool and np.all((c == inside) | near), "contains", got=c, want=inside)
        mon.equal(c, np.all(img == 0, axis=1), "contains agrees with get_images")
    # -- single vectors, out=, and idempotence
    if n:
        j = int(rng.integers(n))
        mon.equal(box.wrap(x[j]), w[j], "wrap of one vector")
        mon.equal(box.make_fractional(x[j].tolist()), fg[j], "make_fractional of one vector")
        mon.equal(box.get_images(x[j]), img[j], "get_images of one vector")
        out = np.full_like(x, 7)
        r = box.wrap(x, out=out)
        mon.check(r is out, "out= is returned")
        mon.equal(out, w, "wrap(out=)")
        box.make_absolute(fg, out=out)
        mon.equal(out, box.make_absolute(fg), "make_absolute(out=)")
        box.make_fractional(x, out=out)
        mon.equal(out, fg, "make_fractional(out=)")
        y = x.copy()
        box.wrap(y, out=y)
        mon.equal(y, w, "wrap in place")
        mon.equal(box.unwrap(w, img, out=out), box.unwrap(w, img), "unwrap(out=)")
        if exact:
            mon.equal(box.wrap(w), w, "wrap is idempotent")
        else:
            far_ = ob.near_face(w64, 4 * ob.tol())
            mon.close(box.wrap(w)[~far_], w64[~far_], "wrap is idempotent", atol=4 * ob.tol(), rtol=0)
    # -- geometry
    mon.close(box.volume, ob.volume, "volume", atol=0, rtol=1e-6)
    mon.close(box.to_matrix(), ob.M, "to_matrix", atol=0, rtol=1e-6)
    mon.close(np.stack([box.v1, box.v2, box.v3][: ob.d], 1), ob.M[:, : ob.d], "lattice vectors", atol=0, rtol=1e-6)
    mon.close(box.get_box_vector(i % ob.d), ob.M[:, i % ob.d], "get_box_vector", atol=0, rtol=1e-6)
    li = np.zeros(3)
    li[: ob.d] = 1 / ob.L[: ob.d]
    mon.close(box.L_inv, li, "L_inv", atol=0, rtol=1e-6)
    mon.equal(box.L, ob.L, "L")
    # -- distances
    m = int(rng.integers(1, 40))
    q = f32(ob.shifted(rng, geo.points(rng, ob, m), 2)) if not exact else geo.exact_points(rng, ob, m)
    p = x if n else geo.exact_points(rng, ob, 3)
    v, d = geo.pair_table(ob, q, p)
    tt = 0 if exact else ob.tol(q, p)
    raw = p.astype(np.float64)[None] - q.astype(np.float64)[:, None]
    amb = ob.near_face(raw, tt * 2) & (not ob.ortho)
    ad = box.compute_all_distances(q, p)
    mon.check(ad.shape == d.shape, "compute_all_distances shape")
    e = np.abs(ad - d)
    mon.check(np.all((e <= 2 * tt + 1e-6 * d) | amb), "compute_all_distances", got=ad, want=d)
    kq = min(len(q), len(p))
    cd = box.compute_distances(q[:kq], p[:kq])
    dd = np.diagonal(d)[:kq]
    mon.check(np.all((np.abs(cd - dd) <= 2 * tt + 1e-6 * dd) | np.diagonal(amb)[:kq]), "compute_distances", got=cd, want=dd)
    mon.event("distances", d.size)
    if not exact and per[: ob.d].all():
        # any other images of the same points are equally far apart
        q2, p2 = ob.shifted(rng, q, 3), ob.shifted(rng, p, 3)
        t2 = ob.tol(q2, p2) * 3
        raw2 = ob.near_face(raw, t2 * 2)
        a2 = box.compute_all_distances(q2, p2)
        mon.check(np.all((np.abs(a2 - d) <= t2) | raw2), "distances depend on the images chosen", got=a2, want=d)
    # -- centre of mass (periodic boxes)
    if per[: ob.d].all() and n:
        ms = f32(rng.uniform(0.1, 5, size=n)) if rng.random() < 0.6 else None
        wts = np.ones(n) if ms is None else ms.astype(float)
        z = (wts[:, None] * np.exp(2j * np.pi * fw)).sum(0) / wts.sum()
        good = np.all(np.abs(z[: ob.d]) > 0.05)
        com = box.center_of_mass(x, ms)
        cen = box.center(x, ms)
        if good:
            fc = np.angle(z) / (2 * np.pi)
            fc -= np.floor(fc)
            want = ob.abs(fc)
            delta = ob.wrap(com - want)
            t3 = 40 * tol + 60 * ob.tol()
            mon.check(np.linalg.norm(delta) < t3, "center_of_mass", got=com, want=want)
            dv = x64 - want
            k = (cen.astype(np.float64) - dv) @ ob.Mi.T
            if ob.is2D:
                k[:, 2] = 0
            mon.close(k, np.round(k), "center subtracts the centre of mass", atol=2 * t3 / h.min(), rtol=0)
            fcen = ob.frac(cen)
            mon.check(np.all((fcen > -1e-5) & (fcen < 1 + 1e-5)), "center wraps its result", got=cen)
            mon.event("centers")
    # -- plane distances, observed through the largest accepted cutoff
    if ob.periodic.all() and i % 4 == 0:
        aq = fr.freud.locality.AABBQuery(box, geo.points(rng, ob, 2))
        lim = ob.rlim()
        list(aq.query(np.zeros((1, 3)), dict(r_max=lim * 0.999, mode="ball")))
        mon.raises(RuntimeError, lambda: list(aq.query(np.zeros((1, 3)), dict(r_max=lim * 1.001, mode="ball"))),
                   "cutoff beyond half the smallest plane distance")
        mon.event("plane_limits")

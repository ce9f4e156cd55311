"""Plots against the values they are made from, read back from the artists at their data coordinates."""
import os
import numpy as np
from vf import fr, geo, zoo

PHASES = dict(quick=[dict(variant="rel", dirs=zoo.DIRS, cases=4000, cap=90), dict(variant="rel", dirs=zoo.EXTRA_DIRS, full="try", zoo="extra", cases=1200, cap=50)],
              thorough=[dict(variant="rel", dirs=zoo.DIRS, cases=60000, cap=600), dict(variant="rel", dirs=zoo.EXTRA_DIRS, full="try", zoo="extra", cases=20000, cap=240)])
RULE = ("every class with a plot method x random systems and parameters x own or given axes: line, bar, scatter, polygon and image artists read back and compared with the results (images looked up at the data coordinates of "
        "each bin or pixel), titles and colour limits as documented, the same results before and after plotting, PNG representations of computed objects and none of uncomputed ones; non-trivial = artists with data compared; "
        "distinct by (class, own axes, dimension, sizes)")
REQUIRED = dict(plots=1500, image_values=20000, line_points=3000, unchanged=800, pngs=10, polygons=500)
ASSUMPTIONS = ["the Agg backend of the installed matplotlib", "histograms of values that are all equal up to rounding are not judged", "densities of tilted boxes are drawn on a rectangle: only their pixel order is judged"]
_plt = None


def plt():
    global _plt
    if _plt is None:
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as p
        import freud.plot   # noqa: F401
        _plt = p
    return _plt


def image(ax):
    return ax.images[-1]


def lookup(im, X, Y):
    """Values of the drawn pixels at data coordinates (X, Y): masked entries are nan."""
    a = np.ma.filled(np.ma.asarray(im.get_array(), float), np.nan)
    l, r, b, t = im.get_extent()
    n, m = a.shape
    c = np.clip(np.floor((X - l) / (r - l) * m + 1e-6), 0, m - 1).astype(int)
    v = (Y - b) / (t - b) if im.origin == "lower" else (t - Y) / (t - b)
    return a, c, np.clip(np.floor(v * n + (1e-6 if im.origin == "lower" else -1e-6)), 0, n - 1).astype(int)


def grid_check(mon, im, xs, ys, want, what, rtol=1e-6):
    """want[i, j] is drawn at (xs[i], ys[j])."""
    a, c, r = lookup(im, np.asarray(xs, float), np.asarray(ys, float))
    mon.check(a.shape == (len(ys), len(xs)), "%s: image of %s pixels for %s values" % (what, a.shape, want.shape))
    got = a[np.ix_(r, c)].T
    mon.close(got, np.asarray(want, float), what, rtol=rtol, atol=1e-9)
    mon.event("image_values", got.size)


def lines(ax):
    return [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax.lines]


def line_check(mon, ax, x, y, what):
    L = lines(ax)
    mon.check(len(L) >= 1, what + ": a line is drawn")
    gx, gy = L[-1]
    mon.close(gx, np.asarray(x, float), what + ": x", rtol=1e-6)
    mon.close(gy, np.asarray(y, float), what + ": y", rtol=1e-6)
    mon.event("line_points", len(gx))


def bars_check(mon, ax, idx, what):
    val, cnt = np.unique(np.asarray(idx).astype(int), return_counts=True)
    top = sorted(cnt.tolist(), reverse=True)[:10]
    h = [p.get_height() for p in ax.patches]
    mon.equal(h, top, what + ": sizes of the largest clusters in decreasing order")
    lab = [t.get_text() for t in ax.get_xticklabels()]
    size = {str(v): c for v, c in zip(val, cnt)}
    mon.check(len(lab) == len(set(lab)) == len(top) and all(size.get(k) == c for k, c in zip(lab, top)), what + ": keys of the bars", got=lab, want=size)
    mon.event("line_points", len(h))


def hist_check(mon, ax, values, what):
    h = np.array([p.get_height() for p in ax.patches])
    e = np.array([p.get_x() for p in ax.patches])
    values = np.asarray(values)
    n = values.size
    mon.close(h.sum(), n, what + ": the histogram holds every value")
    want, edges = np.histogram(values, bins=10)
    mon.equal(h, want, what + ": counts")
    mon.close(e, edges[:-1], what + ": edges", rtol=1e-5, atol=1e-6 * (np.abs(values).max() + 1e-9))
    mon.event("line_points", len(h))


def spread(v):
    """Equal values cannot be put into ten bins."""
    return np.isfinite(v).all() and np.ptp(v) > 1e-3


def corner_paths(ob, img):
    """The edges of the box as a set of unordered corner pairs, in fractional integers."""
    d = ob.d
    out = set()
    for k in np.ndindex(*(2,) * d):
        for a in range(d):
            if k[a] == 0:
                l = list(k)
                l[a] = 1
                out.add((tuple(int(x) for x in k), tuple(l)))
    return out


def box_check(mon, ax, ob, img, what, color=None, lines_=None):
    """The drawn lines trace every edge of the box, and nothing else."""
    seen = set()
    for ln in (ax.lines if lines_ is None else lines_):
        xyz = np.array(ln.get_data_3d() if ob.d == 3 else ln.get_data(), float)
        q = np.zeros((xyz.shape[1], 3))
        q[:, : ob.d] = xyz.T[:, : ob.d]
        f = ob.frac(q)[:, : ob.d] - np.asarray(img)[: ob.d]
        mon.check(np.abs(f - np.round(f)).max() < 1e-3 and f.min() > -0.01 and f.max() < 1.01, what + ": corners", got=f)
        f = np.round(f).astype(int)
        for u, v in zip(f[:-1], f[1:]):
            mon.check(np.abs(u - v).sum() == 1, what + ": a line that is no edge", got=(u, v))
            seen.add(tuple(sorted((tuple(int(x) for x in u), tuple(int(x) for x in v)))))
        if color is not None:
            mon.equal(str(ln.get_color()), color, what + ": colour of every edge")
    mon.check(seen == corner_paths(ob, img), what + ": %d of %d edges" % (len(seen), len(corner_paths(ob, img))), got=sorted(seen))
    mon.event("polygons")
    if ob.d == 3 and what == "Box.plot":
        lim = np.array([ax.get_xlim3d(), ax.get_ylim3d(), ax.get_zlim3d()], float)
        span = lim[:, 1] - lim[:, 0]
        mid = ob.M @ np.asarray(img, float)
        tol = 1e-3 * (1 + np.abs(ob.M).sum())
        mon.check((span > 0).all() and np.ptp(span) < tol, what + ": the three axes have one scale", limits=lim)
        mon.check(np.abs(lim.mean(1) - mid).max() < tol, what + ": the axes are centred on the box", limits=lim, want=mid)
        mon.check(span[0] > 0.999 * ob.L[2], what + ": the axes reach over the height of the box", limits=lim)
        mon.event("axes_3d")


def axes_for(rng, d3=False):
    if rng.random() < 0.5:
        return None
    fig = plt().figure()
    return fig.add_subplot(111, projection="3d") if d3 else fig.subplots()


def png(mon, rng, obj, computed, what):
    b = obj._repr_png_()
    if computed:
        mon.check(isinstance(b, bytes) and b[:4] == b"\x89PNG", what + ": PNG representation")
    else:
        mon.check(b is None, what + ": no PNG representation", got=type(b))
    mon.event("pngs")


def case(i, rng, mon):
    try:
        extra(rng, mon, i) if os.environ.get("VF_ZOO") == "extra" else regular(rng, mon, i)
    finally:
        plt().close("all")


KINDS = ("RDF", "CorrelationFunction", "StaticStructureFactorDebye", "MSD", "Cluster", "GaussianDensity", "SphereVoxelization", "PMFTXY", "DiffractionPattern", "Hexatic", "Box", "System", "PMFTXY", "DiffractionPattern",
         "GaussianDensity", "Box", "System")


def done(mon, name, *sig):
    mon.event("plots")
    mon.sig(name, *sig)


def regular(rng, mon, i):
    plt()
    name = KINDS[i % len(KINDS)]
    if name == "Box":
        return box(rng, mon)
    if name == "System":
        return system(rng, mon)
    e = zoo.BY[name]
    P = e.params(rng)
    if name == "PMFTXY":
        P.update(x_max=float(rng.uniform(0.4, 1.0)), y_max=float(rng.uniform(0.4, 0.9)))
    if name == "GaussianDensity" or name == "SphereVoxelization":
        if not isinstance(P["width"], int) or rng.random() < 0.5:
            P["width"] = [int(x) for x in rng.integers(2, 14, size=3)]
    dim = 2 if name in ("PMFTXY", "Hexatic", "GaussianDensity", "SphereVoxelization") else None
    threed = dim == 2 and name in ("GaussianDensity", "SphereVoxelization") and rng.random() < 0.1
    f = e.frame(rng, P, dim=3 if threed else dim)
    if name in ("GaussianDensity", "SphereVoxelization") and not threed and rng.random() < 0.3:
        f.p = f.p[:1]      # a single blob
        f.arrays = {}
    obj = e.new(P)
    if rng.random() < 0.15:
        mon.raises(AttributeError, lambda: obj.plot(), name + ".plot before compute") if name not in ("Cluster",) else None
        if rng.random() < 0.2:
            png(mon, rng, obj, False, name)
    mon.describe(analysis=name, params=P, points=f.p)
    try:
        e.call(obj, f)
    except Exception:
        mon.event("rejected_frames")
        return
    before = e.read(obj)
    ax = axes_for(rng)
    own = ax is None
    if threed:
        mon.check(obj.plot(ax=ax) is None, "plot of a 3D density")
        return done(mon, name, "3d")
    kw = {}
    if name == "DiffractionPattern":
        if rng.random() < 0.5:
            kw.update(vmin=float(rng.uniform(1e-4, 0.1)), vmax=float(rng.uniform(0.5, 4)))
        if rng.random() < 0.3:
            kw["cmap"] = "viridis"
        if not before["diffraction"].max() > 0:
            return
    if name == "Hexatic" and not spread(np.abs(before["particle_order"])):
        return
    try:
        out = obj.plot(ax=ax, **kw)
    except ValueError as ex:
        # nothing finite to draw
        if name == "PMFTXY" and not np.isfinite(before["pmft"]).any():
            return
        raise
    mon.check(own or out is ax, name + ".plot draws on the given axes and returns them")
    ax = out
    if name in ("RDF", "CorrelationFunction"):
        line_check(mon, ax, obj.bin_centers, before["rdf"] if name == "RDF" else np.real(before["correlation"]), name)
    elif name == "StaticStructureFactorDebye":
        m = obj.k_values > obj.min_valid_k
        line_check(mon, ax, obj.k_values[m], before["S_k"][m], name)
    elif name == "MSD":
        line_check(mon, ax, np.arange(len(before["msd"])), before["msd"], name)
    elif name == "Cluster":
        bars_check(mon, ax, before["cluster_idx"], name)
    elif name == "Hexatic":
        hist_check(mon, ax, np.abs(obj.particle_order), name)
    elif name in ("GaussianDensity", "SphereVoxelization"):
        v = before["density" if name == "GaussianDensity" else "voxels"]
        v = v.reshape(v.shape[:2])
        im = image(ax)
        w, h = v.shape
        Lx, Ly = f.ob.L[:2]
        l, r, b, t = im.get_extent()
        mon.close([l, r, b, t], [-Lx / 2, Lx / 2, -Ly / 2, Ly / 2], name + ": extent", rtol=1e-5)
        grid_check(mon, im, ((np.arange(w) + .5) / w - .5) * Lx, ((np.arange(h) + .5) / h - .5) * Ly, v, name)
        if len(f.p) == 1 and f.ob.ortho and v.max() > 0 and name == "GaussianDensity" and (v == v.max()).sum() == 1:
            a, c, rr = lookup(im, np.array([f.p[0, 0]]), np.array([f.p[0, 1]]))
            # the pixel the particle is in is one of those nearest to it
            y, x = np.unravel_index(np.argmax(a), a.shape)
            dx, dy = (x - c[0]) % w, (y - rr[0]) % h
            mon.check(min(dx, w - dx) <= 1 and min(dy, h - dy) <= 1, "the maximum of the drawn density is at the particle", got=(x, y), want=(c[0], rr[0]))
            mon.event("blobs")
    elif name == "PMFTXY":
        v = before["pmft"].copy()
        v[np.isinf(v)] = np.nan
        im = image(ax)
        mon.close(im.get_extent(), [-P["x_max"], P["x_max"], -P["y_max"], P["y_max"]], "PMFTXY: extent", rtol=1e-5)
        grid_check(mon, im, obj.bin_centers[0], obj.bin_centers[1], v, "PMFTXY")
    elif name == "DiffractionPattern":
        im = image(ax)
        N = len(f.p)
        lo, hi = kw.get("vmin", 4e-6 * N), kw.get("vmax", 0.7 * N)
        mon.close([im.norm.vmin, im.norm.vmax], [lo, hi], "colour limits", rtol=1e-9)
        k = np.asarray(before["k_values"], float)
        l, r, b, t = im.get_extent()
        dk = k[1] - k[0] if len(k) > 1 else 0
        mon.check(abs(l - k.min()) <= 0.51 * dk and abs(r - k.max()) <= 0.51 * dk and abs(b - k.min()) <= 0.51 * dk and abs(t - k.max()) <= 0.51 * dk, "extent covers the k values", got=(l, r, b, t), want=(k.min(), k.max()))
        # diffraction[i, j] is the intensity at (k_values[j], k_values[i])
        grid_check(mon, im, k, k, np.clip(before["diffraction"], lo, hi).T, "DiffractionPattern")
        rgba = obj.to_image(**kw)
        import matplotlib
        cm = matplotlib.colormaps[kw.get("cmap", "afmhot")]
        nrm = matplotlib.colors.LogNorm(vmin=lo, vmax=hi)
        mon.check(rgba.dtype == np.uint8 and rgba.shape == before["diffraction"].shape + (4,), "to_image: shape and type", got=rgba.shape)
        want = cm(nrm(np.clip(before["diffraction"], lo, hi))) * 255
        mon.check(np.abs(rgba.astype(float) - want).max() <= 1.0, "to_image: colours of the pixels")
    if rng.random() < 0.02:
        png(mon, rng, obj, True, name)
    after = e.read(obj)
    for k in before:
        mon.check(np.array_equal(before[k], after[k], equal_nan=True), "%s.%s after plotting" % (name, k))
    mon.event("unchanged")
    done(mon, name, own, getattr(f.ob, "d", 0), min(len(f.p), 4))


def box(rng, mon):
    ob = geo.random_box(rng)
    img = rng.integers(-2, 3, size=3)
    if ob.is2D:
        img[2] = 0
    mon.describe(box=ob.params(), image=img)
    kw, want = {}, np.zeros(3, int)
    if rng.random() < 0.6:
        kw["image"], want = img.tolist(), img
    title = color = None
    if rng.random() < 0.5:
        kw["title"] = title = "Box %d" % int(rng.integers(100))
    if rng.random() < 0.5:
        kw["color"] = color = ("r", "b", "green")[int(rng.integers(3))]
    ax = axes_for(rng, not ob.is2D)
    own = ax is None
    if rng.random() < 0.2:
        import freud.plot
        out = freud.plot.box_plot(dict(Lx=ob.L[0], Ly=ob.L[1], Lz=ob.L[2], xy=ob.xy, xz=ob.xz, yz=ob.yz, dimensions=ob.d), ax=ax, **kw)
    else:
        out = ob.freud().plot(ax=ax, **kw)
    mon.check(own or out is ax, "Box.plot returns the axes")
    box_check(mon, out, ob, want, "Box.plot", color or "k")
    mon.equal(out.get_title(), title or "", "Box.plot: title")
    done(mon, "Box", own, ob.key(), title is None, color)


def system(rng, mon):
    L = fr.freud.locality
    ob = geo.random_box(rng)
    p = geo.points(rng, ob, geo.nonzero_n(rng, 50))
    mon.describe(box=ob.params(), points=p)
    q = (L.AABBQuery, L.LinkCell, L.NeighborQuery)[int(rng.integers(3))].from_system((ob.freud(), p))
    kw = {}
    if rng.random() < 0.5:
        kw["title"] = "System"
    ax = axes_for(rng, not ob.is2D)
    own = ax is None
    if rng.random() < 0.3:
        import freud.plot
        out, sc = freud.plot.system_plot((ob.freud(), p), ax=ax, **kw)
    else:
        out, sc = q.plot(ax=ax, **kw)
    mon.check(own or out is ax, "plot returns the axes")
    if ob.is2D:
        mon.close(np.asarray(sc.get_offsets(), float), p[:, :2], "points drawn")
    else:
        mon.close(np.array([np.asarray(a, float) for a in sc._offsets3d]).T, p, "points drawn")
    box_check(mon, out, ob, np.zeros(3, int), "system plot")
    mon.equal(out.get_title(), kw.get("title", ""), "system plot: title")
    mon.equal(q.points, p, "points after plotting")
    mon.event("unchanged")
    done(mon, "System", own, ob.key(), type(q).__name__, min(len(p), 4))


XK = ("Voronoi", "Steinhardt", "SolidLiquid", "EnvironmentCluster", "StaticStructureFactorDirect")


def extra(rng, mon, i):
    plt()
    name = XK[i % len(XK)]
    e = zoo.BY[name]
    P = e.params(rng)
    if name == "StaticStructureFactorDirect":
        P["bins"] += 1
    f = e.frame(rng, P, dim=2 if name == "Voronoi" and rng.random() < 0.85 else 3)
    obj = e.new(P)
    mon.describe(analysis=name, params=P, points=f.p, box=f.ob.params())
    try:
        e.call(obj, f)
    except Exception:
        mon.event("rejected_frames")
        return
    before = e.read(obj)
    ax = axes_for(rng)
    own = ax is None
    kw = {}
    if name == "Voronoi":
        kw["color_by"] = (None, "sides", "area")[int(rng.integers(3))]
        if not f.ob.is2D:
            mon.check(obj.plot(ax=ax) is None, "plot of 3D cells")
            return done(mon, name, "3d")
    if name == "Steinhardt" and not spread(before["particle_order"]):
        return
    out = obj.plot(ax=ax, **kw)
    mon.check(own or out is ax, name + ".plot returns the axes")
    ax = out
    if name == "Voronoi":
        pc = ax.collections[0]
        paths = pc.get_paths()
        poly = obj.polytopes
        mon.equal(len(paths), len(poly), "one polygon per cell")
        for a, b in zip(paths, poly):
            v = np.asarray(a.vertices, float)
            v = v[:-1] if len(v) > len(b) else v
            mon.close(v, np.asarray(b)[:, :2], "vertices of the drawn cell", atol=1e-6)
        mon.event("polygons", len(paths))
        c = np.asarray(pc.get_array(), float)
        s = np.array([len(b) for b in poly]) if kw["color_by"] == "sides" else np.asarray(obj.volumes, float) if kw["color_by"] == "area" else None
        if s is not None:
            mon.close(c - c.min(), s - s.min(), "colours follow " + kw["color_by"], rtol=1e-4, atol=1e-4 * max(1, np.abs(s).max()))
        else:
            mon.equal(np.sort(c - c.min()), np.arange(len(poly)), "every cell has its own colour")
        box_check(mon, ax, f.ob, np.zeros(3, int), "box of the Voronoi plot", lines_=ax.lines)
    elif name == "Steinhardt":
        v = obj.particle_order
        if np.ndim(v) == 1:
            hist_check(mon, ax, v, name)
    elif name in ("SolidLiquid", "EnvironmentCluster"):
        bars_check(mon, ax, before["cluster_idx"], name)
    else:
        m = obj.bin_centers > obj.min_valid_k
        line_check(mon, ax, obj.bin_centers[m], before["S_k"][m], name)
    if rng.random() < 0.02:
        png(mon, rng, obj, True, name)
    after = e.read(obj)
    for k in before:
        mon.check(np.array_equal(before[k], after[k], equal_nan=True), "%s.%s after plotting" % (name, k))
    mon.event("unchanged")
    done(mon, name, own, f.ob.d, min(len(f.p), 4), kw.get("color_by"))

"""Symmetry monitors: translation, permutation, axis permutation / reflection, scaling."""
import itertools
import numpy as np
from vf import fr, geo, zoo, nb
from vf.geo import f32, OBox

PHASES = dict(quick=[dict(variant="rel", dirs=zoo.DIRS, cases=40000, cap=110)], thorough=[dict(variant="rel", dirs=zoo.DIRS, cases=400000, cap=850)])
RULE = ("each analysis is run on a random frame and on the frame translated, with points and query points permuted together with their attributes and bonds, with the axes of an orthorhombic box permuted (and mirrored), or with all "
        "lengths scaled by a power of two, and the second result compared with the first one transformed; coordinates on a dyadic grid of 2^-9 make all coordinate differences and their squares exact, so no bin edge or cutoff "
        "decision may change; distinct by (analysis, symmetry, dimension, neighbor kind)")
REQUIRED = dict(translations=5000, permutations=6000, rotations=5000, mirrors=1500, scalings=7000, results_compared=50000)
ASSUMPTIONS = ["translation and axis symmetry are judged in periodic boxes with dyadic lengths"]
STEP = 2.0 ** -9

# what each result is: inv (unchanged), p / q (one row per point / query point), bonds, angles/projections joined to bonds, own
KIND = {
    "Cluster": dict(num_clusters="inv", cluster_idx="own", cluster_keys="own"),
    "ClusterProperties": dict(centers="own", centers_of_mass="own", gyrations="tensor", inertia_tensors="tensor", sizes="inv", cluster_masses="inv", radii_of_gyration="inv"),
    "RDF": dict(rdf="inv", n_r="inv", bin_counts="inv"),
    "CorrelationFunction": dict(correlation="inv", bin_counts="inv"),
    "LocalDensity": dict(num_neighbors="q", density="q"),
    "GaussianDensity": dict(density="grid"),
    "SphereVoxelization": dict(voxels="grid"),
    "BondOrder": dict(bond_order="inv", bin_counts="inv"),
    "AngularSeparationNeighbor": dict(angles="perbond", nlist="bonds"),
    "AngularSeparationGlobal": dict(angles="p"),
    "LocalBondProjection": dict(projections="perbond", normed_projections="perbond", nlist="bonds"),
    "Hexatic": dict(particle_order="p"),
    "Cubatic": dict(order="skip", orientation="skip", particle_order="skip", global_tensor="own", cubatic_tensor="skip"),
    "RotationalAutocorrelation": dict(order="inv", particle_order="p"),
    "PMFTR12": dict(pmft="pmft", bin_counts="counts"),
    "PMFTXYT": dict(pmft="pmft", bin_counts="counts"),
    "PMFTXY": dict(pmft="pmft", bin_counts="counts"),
    "PMFTXYZ": dict(pmft="inv", bin_counts="inv"),
    "StaticStructureFactorDebye": dict(S_k="inv", min_valid_k="inv"),
    "DiffractionPattern": dict(diffraction="inv", k_values="inv", k_vectors="inv"),
    "MSD": dict(msd="inv", particle_msd="col"),
    "Interface": dict(point_ids="ids_p", query_point_ids="ids_q", point_count="inv", query_point_count="inv"),
    "AABBQuery.query": dict(bonds="bonds", counts="q", segments="skip"),
    "LinkCell.query": dict(bonds="bonds", counts="q", segments="skip"),
    "FilterSANN": dict(filtered_nlist="bonds", unfiltered_nlist="bonds"),
    "FilterRAD": dict(filtered_nlist="bonds", unfiltered_nlist="bonds"),
    "PeriodicBuffer": dict(buffer_points="own", buffer_ids="skip"),
    "Box.wrap": dict(wrapped="p", images="p", unwrapped="p", frac="p", absolute="p", dist="pq", com="skip", mask="p"),
    "UnitCell": dict(points="inv"),
}
UNITS = {"Box.wrap": dict(wrapped=1, images=0, unwrapped=1, frac=0, absolute=1, dist=1, com=1, mask=0), "UnitCell": dict(points=1), "DiffractionPattern": dict(diffraction=0, k_values=-1, k_vectors=-1)}
SCALES = (0.25, 0.5, 2.0, 8.0, 2.0 ** -6, 2.0 ** 7)
# analyses with a mirror image that must give the same result: no handedness enters
MIRROR = {"Cluster", "ClusterProperties", "RDF", "CorrelationFunction", "LocalDensity", "GaussianDensity", "SphereVoxelization", "Hexatic", "StaticStructureFactorDebye", "MSD", "Interface", "AABBQuery.query", "LinkCell.query",
          "FilterSANN", "FilterRAD"}
ORIENT = ("orientations", "query_orientations", "global_orientations", "ref_orientations")
NOTRANS = {"PeriodicBuffer", "UnitCell", "DiffractionPattern", "AngularSeparationGlobal", "Cubatic", "RotationalAutocorrelation"}
NOROT = {"UnitCell", "DiffractionPattern"}
NOPERM = {"UnitCell"}
HUR = np.array([q for q in itertools.product((-0.5, 0.5), repeat=4)] + [s * np.eye(4)[k] for s in (1, -1) for k in range(4)])


def case(i, rng, mon):
    e = zoo.ALL[i % len(zoo.ALL)]
    sym = ("translate", "permute", "rotate", "scale")[(i // len(zoo.ALL)) % 4]
    if sym == "translate" and e.name in NOTRANS or sym == "rotate" and e.name in NOROT or sym == "permute" and e.name in NOPERM:
        sym = "scale" if e.name in NOPERM or rng.random() < 0.5 else "permute"
    P = e.params(rng)
    if e.name == "PMFTXYZ" and sym == "rotate":
        # body-frame coordinates are rotated inexactly: no coordinate of the grid, nor zero, may lie on a bin edge
        for k in ("x_max", "y_max", "z_max"):
            P[k] *= 0.98713
        P["bins"] = [int(b) | 1 for b in P["bins"]] if np.ndim(P["bins"]) else int(P["bins"]) | 1
    exact = sym in ("translate", "rotate") or rng.random() < 0.3
    if sym == "permute" and e.name in ("FilterSANN", "FilterRAD"):
        exact = False       # a shell may end between neighbors at equal distances
    f = e.frame(rng, P, exact=exact)
    if exact:
        prepare(rng, e, P, f, sym)
    if isinstance(f.neighbors, dict) and f.q is not None and f.neighbors.get("exclude_ii") and sym == "permute":
        f.neighbors.pop("exclude_ii")  # refers to equal indices
    if not exact and e.name in ("FilterSANN", "FilterRAD"):
        f.p = geo.points(rng, f.ob, len(f.p), "uniform")
    if not exact and isinstance(f.neighbors, dict) and f.neighbors.get("num_neighbors") and ties(f):
        f.neighbors = dict(r_max=1.25, r_min=0.05, exclude_ii=f.q is None)
    if e.name == "ClusterProperties" and sym != "scale":
        compact(rng, f)
    P2, f2, T = globals()[sym](rng, e, P, f)
    T.P = P
    kind = "none" if f.neighbors is None else "nlist" if isinstance(f.neighbors, tuple) else "num" if "num_neighbors" in f.neighbors else "ball"
    mon.describe(analysis=e.name, symmetry=sym, transform=T.text, params=P, box=f.ob.params(), points=f.p, query=f.q, neighbors=str(f.neighbors)[:300], kw=f.kw, arrays={k: v[1] for k, v in f.arrays.items()},
                 params2=P2, points2=f2.p, box2=f2.ob.params())
    a = run(e, P, f)
    b = run(e, P2, f2)
    compare(mon, e, f, f2, T, a, b)
    mon.event(dict(translate="translations", permute="permutations", rotate="rotations", scale="scalings")[sym])
    if T.mirror:
        mon.event("mirrors")
    mon.sig(e.name, sym, f.ob.d, kind)


def run(e, P, f):
    obj = e.new(P)
    e.call(obj, f)
    return e.read(obj)


class Trans:
    """How results change: rows p/q permuted (new row of old row), vectors v -> s R v (+ t), handedness."""

    def __init__(self, text, ip=None, iq=None, R=None, s=1.0, t=None, mirror=False, quat=None, roll=None):
        self.text, self.ip, self.iq, self.R, self.s, self.t, self.mirror, self.quat, self.roll = text, ip, iq, R, s, t, mirror, quat, roll


def prepare(rng, e, P, f, sym):
    """Replace coordinates by generic ones on a dyadic grid, orientations by exact unit quaternions."""
    ob = f.ob
    if e.name != "DiffractionPattern":
        L = rng.choice([4.0, 8.0], size=3)
        t = [0.0, 0.0, 0.0]
        if sym == "translate" and e.name not in ("GaussianDensity", "SphereVoxelization") and rng.random() < 0.5:
            t = rng.choice([0, 0.25, -0.25, 0.5], size=3)
        f.ob = OBox(L[0], L[1], 0 if ob.is2D else L[2], t[0], 0 if ob.is2D else t[1], 0 if ob.is2D else t[2], is2D=ob.is2D)
        assert f.ob.rlim() > 1.45
    f.p = lattice(rng, f.ob, len(f.p))
    if f.q is not None:
        f.q = lattice(rng, f.ob, len(f.q))
    if e.name in ("GaussianDensity", "SphereVoxelization"):
        w = [int(x) for x in rng.choice([2, 4, 8, 16], size=3)]
        P["width"] = w[0] if isinstance(P["width"], int) else w
    if f.ob.d == 3 or e.name in ("RotationalAutocorrelation", "Cubatic", "AngularSeparationGlobal", "AngularSeparationNeighbor", "BondOrder", "LocalBondProjection"):
        for k in ORIENT:
            if k in f.arrays and sym == "rotate":
                f.arrays[k][1] = f32(HUR[rng.integers(0, len(HUR), size=len(f.arrays[k][1]))])
    else:
        for k in ORIENT:
            if k in f.arrays and f.arrays[k][1].ndim == 1:
                f.arrays[k][1] = f32(rng.uniform(-3, 3, size=len(f.arrays[k][1])))
    n = f.neighbors
    if n is not None:
        r_max = float(rng.choice([0.6, 0.9, 1.2, 1.41]))
        nn = dict(r_max=r_max)
        if isinstance(n, dict):
            nn.update({k: v for k, v in n.items() if k in ("exclude_ii", "mode", "r_min")})
        if e.name in ("BondOrder", "LocalBondProjection", "Hexatic") and "r_min" not in nn:
            nn["r_min"] = 0.01
        if isinstance(n, tuple):
            q = f.p if f.q is None else f.q
            if f.q is None:
                nn["exclude_ii"] = True
            nl = fr.freud.locality.AABBQuery(f.ob.freud(), f.p).query(q, nn).toNeighborList()
            a, b, d, v, w = nb.nlist_cols(nl)
            keep = rng.random(len(a)) < 0.7
            w = rng.integers(1, 5, size=int(keep.sum())) * 0.5 if rng.random() < 0.5 else None
            nn = ("nlist", np.array(a)[keep], np.array(b)[keep], np.array(v)[keep], w)
        elif rng.random() < 0.35 and len(f.p) > 1 and f.ob.ortho:  # (tilted: equidistant images)
            k = int(rng.integers(1, min(8, len(f.p) - 1) + 1))
            num = dict(num_neighbors=k, exclude_ii=f.q is None)
            if e.name in ("BondOrder", "LocalBondProjection", "Hexatic"):
                num["r_min"] = 0.01
            f.neighbors = num
            if not ties(f):
                nn = num
        f.neighbors = nn
    if sym == "rotate" and isinstance(f.neighbors, dict) and f.q is None:
        f.neighbors["exclude_ii"] = True  # bonds of zero length lie on bin edges


def lattice(rng, ob, n):
    """Points at dyadic fractional coordinates: coordinates stay multiples of 2^-9 for the tilts used here."""
    k = (ob.L / STEP / 4).astype(int)
    fr_ = np.zeros((n, 3))
    for a in range(ob.d):
        fr_[:, a] = rng.integers(0, k[a], size=n) / k[a]
    if n > 3 and rng.random() < 0.3:  # dense spots
        c = rng.integers(0, n, size=n // 2)
        off = rng.integers(-16, 17, size=(n // 2, 3)) / 128.0
        fr_[: n // 2] = (fr_[c] + off * (np.arange(3) < ob.d)) % 1.0
    # no two points exactly half a box apart, where the nearest image is a tie
    for a in range(ob.d):
        num, h = np.rint(fr_[:, a] * k[a]).astype(int) % k[a], k[a] // 2
        upper = num >= h
        fr_[:, a] = ((num % h) // 2 * 2 + upper + h * upper) / k[a]
    return f32(ob.abs(fr_))


def ties(f):
    q = f.p if f.q is None else f.q
    V, D = geo.pair_table(f.ob, q, f.p)
    D = np.sort(D, axis=1)
    k = f.neighbors["num_neighbors"] + 2
    D = D[:, : k + 1]
    return D.shape[1] > 1 and bool((np.diff(D, axis=1) < 1e-5 * (1 + D[:, 1:])).any())


def compact(rng, f):
    """Clusters much smaller than the box, so that their centers are well defined."""
    idx = f.arrays["cluster_idx"][1]
    c = lattice(rng, f.ob, int(idx.max()) + 1)
    off = rng.integers(-int(0.6 / STEP), int(0.6 / STEP), size=(len(f.p), 3)) * STEP
    if f.ob.is2D:
        off[:, 2] = 0
    f.p = f32(f.ob.wrap(c[idx] + off))


# ---- the symmetries -------------------------------------------------------------------------------------------
def translate(rng, e, P, f):
    g = f.copy()
    nowrap = rng.random() < 0.3
    far = 1 if nowrap else 8
    t = rng.integers(-int(far / STEP), int(far / STEP), size=3) * STEP
    roll = None
    if e.name in ("GaussianDensity", "SphereVoxelization"):
        w = np.array([P["width"]] * 3 if isinstance(P["width"], int) else P["width"])
        roll = rng.integers(-9, 10, size=3)
        t = roll * f.ob.L / w
    if f.ob.is2D:
        t[2] = 0
    if e.name == "MSD":
        g.arrays["positions"][1] = f32(g.arrays["positions"][1] + f32(t))
        return P, g, Trans("by %s" % t, t=t)
    move = (lambda x: f32(x.astype(float) + t)) if nowrap and roll is None else (lambda x: f32(f.ob.wrap(x.astype(float) + t)))
    g.p = move(f.p)
    if g.q is not None:
        g.q = move(f.q)
    return P, g, Trans("by %s" % t, t=t, roll=roll)


def permute(rng, e, P, f):
    g = f.copy()
    n = len(f.p)
    op = rng.permutation(n)
    ip = np.argsort(op)              # new index of old point
    if f.q is None:
        oq, iq = op, ip
    else:
        oq = rng.permutation(len(f.q))
        iq = np.argsort(oq)
    g.p = f.p[op]
    if f.q is not None:
        g.q = f.q[oq]
    for k, (kind, a) in f.arrays.items():
        if kind == "p" and len(a) == n:
            g.arrays[k][1] = a[op]
        elif kind == "q" and len(a) == len(oq):
            g.arrays[k][1] = a[oq]
    if e.name == "MSD":
        for k in ("positions", "images"):
            if k in f.arrays:
                g.arrays[k][1] = f.arrays[k][1][:, op]
    if isinstance(f.neighbors, tuple):
        _, a, b, v, w = f.neighbors
        a2, b2 = iq[a], ip[b]
        o = np.lexsort((rng.permutation(len(a2)), a2))
        g.neighbors = ("nlist", a2[o], b2[o], v[o], None if w is None else w[o])
    return P, g, Trans("points %s" % op[:20], ip=ip, iq=iq)


def rotate(rng, e, P, f):
    d = f.ob.d
    mirror = e.name in MIRROR and rng.random() < 0.5
    flips = e.name not in ("PeriodicBuffer", "Box.wrap")
    while True:
        R = np.zeros((3, 3))
        perm = rng.permutation(3) if d == 3 else np.concatenate([rng.permutation(2), [2]])
        for a in range(3):
            R[a, perm[a]] = rng.choice([-1, 1]) if flips and a < d else 1
        if not flips or (np.linalg.det(R) < 0) == mirror:
            break
    quat = None
    if not mirror and flips:
        # the unit quaternion of this rotation
        for q in np.concatenate([HUR, [[np.sqrt(0.5), 0, 0, np.sqrt(0.5)], [np.sqrt(0.5), 0, 0, -np.sqrt(0.5)]]]):
            if np.allclose(geo.qrot(np.tile(q, (3, 1)), np.eye(3)).T, R, atol=1e-6):
                quat = q
        if quat is None:
            if any(k in f.arrays for k in ORIENT):
                return rotate(rng, e, P, f)
    g = f.copy()
    P2 = dict(P)
    L2 = np.abs(R) @ f.ob.L
    g.ob = OBox(L2[0], L2[1], L2[2], is2D=f.ob.is2D)
    rot = lambda x: f32(np.asarray(x, float) @ R.T)
    g.p = rot(f.p)
    if f.q is not None:
        g.q = rot(f.q)
    for k in ORIENT:
        if k in f.arrays:
            a = f.arrays[k][1]
            if a.ndim == 1:
                ang = 2 * np.arctan2(quat[3], quat[0])
                g.arrays[k][1] = f32(a + ang)
            else:
                g.arrays[k][1] = f32(geo.qmul(np.tile(quat, (len(a), 1)), a.astype(float)))
    if isinstance(f.neighbors, tuple):
        _, a, b, v, w = f.neighbors
        g.neighbors = ("nlist", a, b, rot(v), w)
    if e.name == "MSD":
        ob = P["ob"]
        if ob is not None:
            ob = OBox(*ob.L[:2], ob.L[2], is2D=ob.is2D)
            if ob.is2D:
                R = np.diag([1.0, -1.0, 1.0]) if rng.random() < 0.5 else np.array([[0, 1.0, 0], [1, 0, 0], [0, 0, 1]])
            P["ob"] = ob
            M2 = np.abs(R) @ ob.L
            P2["ob"] = OBox(*M2, is2D=ob.is2D)
            if "images" in f.arrays:
                g.arrays["images"][1] = np.rint(f.arrays["images"][1] @ R.T).astype(np.int32)
        g.arrays["positions"][1] = f32(f.arrays["positions"][1].astype(float) @ R.T)
    if "shiftvec" in P:
        P2["shiftvec"] = [float(x) for x in R @ np.array(P["shiftvec"])]
    if "width" in P and not isinstance(P["width"], int):
        P2["width"] = [int(x) for x in np.abs(R) @ np.array(P["width"])]
    if e.name == "PeriodicBuffer" and isinstance(f.kw["buffer"], (list, tuple)):
        g.kw["buffer"] = [int(x) for x in np.abs(R) @ np.array(f.kw["buffer"])]
    return P2, g, Trans("axes %s" % R.tolist(), R=R, mirror=mirror, quat=quat)


def scale(rng, e, P, f):
    s = float(SCALES[int(rng.integers(len(SCALES)))])
    g = f.copy()
    P2 = dict(P)
    for k in e.lengths:
        if k in P:
            P2[k] = [x * s for x in P[k]] if isinstance(P[k], (list, tuple)) else P[k] * s
    for k in getattr(e, "inverse", ()):
        P2[k] = P[k] / s
    b = f.ob

    def big(b):
        o = OBox(b.L[0] * s, b.L[1] * s, b.L[2] * s, b.xy, b.xz, b.yz, is2D=b.is2D, periodic=b.periodic)
        return o
    g.ob = big(b)
    g.p = f32(f.p * np.float32(s))
    if f.q is not None:
        g.q = f32(f.q * np.float32(s))
    n = f.neighbors
    if isinstance(n, tuple):
        g.neighbors = ("nlist", n[1], n[2], f32(n[3] * s), n[4])
    elif isinstance(n, dict):
        g.neighbors = {k: (v * s if k in ("r_max", "r_min", "r_guess") else v) for k, v in n.items()}
    if e.name == "MSD":
        g.arrays["positions"][1] = f32(f.arrays["positions"][1] * np.float32(s))
        if P["ob"] is not None:
            P2["ob"] = big(P["ob"])
    if e.name == "PeriodicBuffer" and not f.kw["images"]:
        g.kw["buffer"] = f.kw["buffer"] * s
    if e.name == "UnitCell":
        g.kw["scale"] = f.kw["scale"] * s
    return P2, g, Trans("by %g" % s, s=s)


# ---- comparison -----------------------------------------------------------------------------------------------
def close(mon, e, got, want, what, rtol=2e-5, atol=2e-5):
    mon.event("results_compared")
    mon.check(got.shape == want.shape, "%s has shape %s, expected %s" % (what, got.shape, want.shape))
    s = np.abs(want[np.isfinite(want)]).max() if want.size and np.isfinite(want).any() else 0.0
    if "order" in what:
        s = max(s, 1.0)
    mon.close(got, want, what, rtol=rtol, atol=atol * s + 1e-30)


def compare(mon, e, f, g, T, a, b):
    K = KIND[e.name]
    R = T.R
    for name, kind in K.items():
        x, y = a[name], b[name]
        what = "%s.%s after %s" % (e.name, name, T.text.split()[0] + (" (mirror)" if T.mirror else ""))
        if kind == "skip":
            continue
        units = UNITS.get(e.name, e.units).get(name)
        factor = 1.0
        if T.s != 1.0:
            u = -f.ob.d if units == "-d" else units
            if kind not in ("bonds", "perbond"):
                factor = T.s ** u
            elif kind == "perbond":
                factor = T.s ** (u or 0)
        if kind in ("pmft", "counts") and R is not None:
            # angles are rotated inexactly: a few bonds may cross a bin edge
            if kind == "counts":
                mon.event("results_compared")
                mon.check(x.sum() == y.sum() or abs(x.sum() - y.sum()) <= 3 + 0.01 * x.sum(), what + ": total count", got=y.sum(), want=x.sum())
                mon.check(np.abs(x - y).sum() <= 6 + 0.02 * x.sum(), what + ": counts moved", got=y, want=x)
            continue
        if kind in ("inv", "pmft", "counts"):
            if e.name == "BondOrder" and R is not None:
                if T.P["mode"] != "lbod" or not np.allclose(T.quat * 2, np.rint(T.quat * 2)):
                    continue
            if e.name == "MSD":
                scale_ = float(np.square(f.arrays["positions"][1]).max(initial=1)) * T.s ** 2
                mon.event("results_compared")
                mon.close(y, x * factor, what, rtol=1e-4, atol=1e-4 * scale_ * 10)
                continue
            if e.name in ("BondOrder", "PMFTXYZ") and R is not None:
                # signed zeros decide on which side of an edge a bond along an axis falls
                if name == "bin_counts":
                    mon.event("results_compared")
                    mon.check(np.abs(x - y).sum() <= (0 if e.name == "PMFTXYZ" else 4 + 0.02 * x.sum()), what + ": counts moved", got=y, want=x)
                continue
            if name == "radii_of_gyration":
                mon.close(y, x * factor, what, rtol=1e-4, atol=1e-4 * factor)
                continue
            close(mon, e, y, x * factor, what)
            if name in e.ints or name in ("bin_counts", "sizes"):
                mon.check(np.array_equal(y, x * factor), what + ": exact", got=y, want=x * factor)
            continue
        if kind in ("p", "q"):
            if e.name == "Box.wrap" and T.t is not None:
                continue
            ix = T.ip if kind == "p" else T.iq
            w = x.copy()
            if ix is not None:
                w[ix] = x
            if e.name == "Hexatic" and R is not None:
                c, s_ = R[0, 0], R[1, 0]
                k = T.P["k"]
                rot = complex(c, s_) ** k
                w = (np.conj(w) if T.mirror else w) * rot
            if e.name == "Box.wrap" and R is not None and w.ndim == 2:
                w = w @ R.T
            close(mon, e, y, w * factor, what, atol=2e-3 if "ngles" in name else 2e-5)
            continue
        if kind == "pq":
            w = x
            if T.ip is not None:
                w = x.copy()
                w[np.ix_(T.ip, T.iq)] = x
            close(mon, e, y, w * factor, what)
            continue
        if kind == "col":
            w = x.copy()
            if T.ip is not None:
                w[:, T.ip] = x
            mon.event("results_compared")
            mon.close(y, w * factor, what, rtol=1e-4, atol=1e-3 * float(np.square(f.arrays["positions"][1]).max(initial=1)) * T.s ** 2)
            continue
        if kind == "tensor":
            w = x
            if R is not None:
                w = np.einsum("ij,njk,lk->nil", R, x, R)
            mon.event("results_compared")
            mon.close(y, w * factor, what, rtol=1e-4, atol=max(1e-4 * factor * np.abs(x).max(), 1e-6 * factor))
            continue
        if kind in ("ids_p", "ids_q"):
            ix = T.ip if kind == "ids_p" else T.iq
            w = x if ix is None else np.sort(ix[x.astype(int)])
            mon.event("results_compared")
            mon.check(np.array_equal(np.sort(y), np.sort(w)), what, got=y, want=w)
            continue
        if kind in ("bonds", "perbond"):
            nl1, nl2 = (x, y) if kind == "bonds" else (a["nlist"], b["nlist"])
            w = nl1.copy()
            if T.ip is not None and len(w):
                w[:, 0], w[:, 1] = T.iq[w[:, 0].astype(int)], T.ip[w[:, 1].astype(int)]
            if R is not None:
                w[:, 3:6] = w[:, 3:6] @ R.T
            w[:, 2:6] *= T.s
            if kind == "perbond":
                mon.check(len(x) == len(w) and len(y) == len(nl2), what + ": one row per bond", rows=(x.shape, y.shape), bonds=(len(w), len(nl2)))
                if not len(x) or not len(y):
                    continue
                xr, yr = x.reshape(len(x), -1) * factor, y.reshape(len(y), -1)
                w, nl2 = np.hstack([w, xr]), np.hstack([nl2, yr])
            mon.event("results_compared")
            mon.check(w.shape == nl2.shape, "%s: %d bonds, expected %d" % (what, len(nl2), len(w)), got=nl2[:, :2], want=w[:, :2])
            wc, yc = canon_s(w, T.s), canon_s(nl2, T.s)
            mon.check(np.array_equal(wc[:, :2], yc[:, :2]), what + ": same pairs", got=yc[:, :2], want=wc[:, :2])
            # angles near 0 are only known to sqrt(eps)
            mon.close(yc, wc, what, rtol=2e-5, atol=(2e-3 if "angles" in name else 2e-5) * max(1.0, T.s) if kind == "perbond" else 2e-5 * T.s * 8)
            continue
        if kind == "grid":
            w = x
            if T.roll is not None:
                sh = T.roll[: x.ndim]
                w = np.roll(x, sh, axis=tuple(range(x.ndim)))
            if R is not None:
                nd = x.ndim
                pr = [int(np.argmax(np.abs(R[k]))) for k in range(nd)]
                w = np.transpose(x, pr)
                for k in range(nd):
                    if R[k].sum() < 0:
                        w = np.flip(w, k)
            close(mon, e, y, w * factor, what)
            if name in e.ints:
                mon.check(np.array_equal(y, w), what + ": exact", got=y, want=w, where=np.argwhere(y != w)[:6])
            continue
        own(mon, e, f, g, T, a, b, name, what, factor)


def canon_s(rows, s):
    r = rows.copy()
    if not len(r):
        return r
    key = np.round(np.concatenate([r[:, :2], r[:, 3:6] / s], axis=1), 5).T[::-1]
    return r[np.lexsort(key)]


def own(mon, e, f, g, T, a, b, name, what, factor):
    mon.event("results_compared")
    if e.name == "Cluster":
        i1, i2 = a["cluster_idx"].astype(int), b["cluster_idx"].astype(int)
        if T.ip is not None:
            i2 = i2[T.ip]           # back in the original order
            rep = lambda ix: np.array([np.flatnonzero(ix == c)[0] for c in ix], int)
            mon.check(np.array_equal(rep(i1), rep(i2)), what + ": partition", got=i2, want=i1)
            mon.check(np.array_equal(np.bincount(i1), np.bincount(i2)), what + ": sizes by label", got=np.bincount(i2), want=np.bincount(i1))
        else:
            mon.check(np.array_equal(i1, i2), what + ": labels", got=i2, want=i1)
            mon.check(np.array_equal(a["cluster_keys"], b["cluster_keys"]), what + ": keys", got=b["cluster_keys"], want=a["cluster_keys"])
    elif e.name == "ClusterProperties":
        x, y = a[name], b[name]
        w = x * factor
        if T.R is not None:
            w = w @ T.R.T
        if T.t is not None:
            w = w + T.t
        d = g.ob.wrap(y - w)
        mon.check(np.abs(d).max(initial=0) <= 1e-4 * max(1.0, np.abs(g.ob.L).max()), what, got=y, want=g.ob.wrap(w))
    elif e.name == "Cubatic":
        x, y = a[name], b[name]
        w = x
        if T.R is not None:
            R = T.R
            w = np.einsum("ai,bj,ck,dl,ijkl->abcd", R, R, R, R, x)
        mon.close(y, w, what, rtol=1e-4, atol=1e-4)
    elif e.name == "PeriodicBuffer":
        x, y = a["buffer_points"] * factor, b["buffer_points"]
        i1, i2 = a["buffer_ids"].astype(int), b["buffer_ids"].astype(int)
        if T.R is not None:
            x = x @ T.R.T
        if T.ip is not None:
            i1 = T.ip[i1]
        mon.check(len(x) == len(y), what + ": number of points", got=len(y), want=len(x))
        u = canon_s(np.column_stack([i1, i1 * 0, i1 * 0, x]), T.s)
        v = canon_s(np.column_stack([i2, i2 * 0, i2 * 0, y]), T.s)
        mon.check(np.array_equal(u[:, 0], v[:, 0]), what + ": ids", got=i2, want=i1)
        mon.close(v[:, 3:], u[:, 3:], what, rtol=1e-5, atol=1e-4 * T.s)

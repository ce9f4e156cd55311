"""One entry per analysis: random constructor arguments, random frames (arguments of one compute call),
how to call it and what to read.  Used by the cross-cutting checks X01-X05."""
import copy, os
import numpy as np
from vf import fr, geo, nb
from vf.geo import f32

DIRS = ["cluster", "density", "diffraction", "environment", "order", "pmft"]
EXTRA_DIRS = ["diffraction", "environment", "order"]


class Frame:
    """box model, points, query points, other arrays {name: [kind, array]} (kind: p per point, q per query point,
    o other), neighbors (None, dict, or ("nlist", i, j, v, w)), further keyword arguments."""

    def __init__(self, ob=None, p=None, q=None, arrays=None, neighbors=None, kw=None):
        self.ob, self.p, self.q = ob, p, q
        self.arrays = arrays or {}
        self.neighbors = neighbors
        self.kw = kw or {}

    def copy(self):
        return copy.deepcopy(self)

    @property
    def nq(self):
        return len(self.p if self.q is None else self.q)

    def nlist(self, conv=lambda a: a):
        if isinstance(self.neighbors, tuple):
            _, i, j, v, w = self.neighbors
            a = (self.nq, len(self.p), conv(i.astype(np.uint32)), conv(j.astype(np.uint32)), conv(f32(v)))
            L = fr.freud.locality.NeighborList
            return L.from_arrays(*a) if w is None else L.from_arrays(*a, weights=conv(f32(w)))
        return self.neighbors


def as_array(x):
    if isinstance(x, fr.freud.locality.NeighborList):
        i, j, d, v, w = nb.nlist_cols(x)
        return np.column_stack([i, j, d, v, w]).astype(float) if len(i) else np.zeros((0, 7))
    if isinstance(x, (list, tuple)):
        if len(x) and isinstance(x[0], (list, tuple, np.ndarray)):
            return np.concatenate([np.concatenate([[len(a)], np.asarray(a, float).ravel()]) for a in x])
        return np.asarray(x, float)
    a = np.array(x)
    return a.astype(complex) if np.iscomplexobj(a) else a.astype(float)


class Entry:
    accum = False
    dims = (2, 3)
    reads = ()
    ints = ()          # reads that must be bit-identical however the work is split
    needs_sys = True
    wantq = 0.5
    qok = True
    lengths = ()       # constructor parameters that are lengths
    name = None
    heavy = 1

    def params(self, rng):
        return {}

    def new(self, P):
        raise NotImplementedError

    def frame(self, rng, P, like=None, exact=False, dim=None):
        """like: a frame whose box and sizes to keep."""
        f = Frame()
        if like is not None:
            f.ob = like.ob
            n = len(like.p)
            nqq = None if like.q is None else len(like.q)
        else:
            d = dim or int(rng.choice(self.dims))
            if exact:
                f.ob = geo.exact_box(rng, d, sizes=(4, 8))
            else:
                f.ob = self.box(rng, d)
            n = geo.nonzero_n(rng, 60)
            nqq = geo.nonzero_n(rng, 40) if self.qok and rng.random() < self.wantq else None
            if self.qok == "always" and nqq is None:
                nqq = geo.nonzero_n(rng, 40)
        if exact:
            f.p = geo.exact_points(rng, f.ob, n, step=0.5)
        else:
            f.p = geo.points(rng, f.ob, n)
        if nqq is not None:
            f.q = geo.exact_points(rng, f.ob, nqq, step=0.5) if exact else geo.points(rng, f.ob, nqq)
        self.fill(rng, P, f, exact)
        return f

    def box(self, rng, d):
        while True:
            ob = geo.random_box(rng, d, lo=3.0, hi=12.0, maxtilt=0.6)
            if ob.rlim() > 1.45:  # no analysis here searches further than 1.42 by default
                return ob

    def fill(self, rng, P, f, exact):
        pass

    def rand_neighbors(self, rng, f, exact, none_ok=True, kinds=("none", "ball", "ball", "num", "nlist", "nlist"), nonzero=False):
        k = kinds[int(rng.integers(len(kinds)))]
        if k == "none" and none_ok:
            return None
        if k == "num" and not exact and f.ob.periodic.all() and len(f.p) > 1:
            kw = dict(num_neighbors=int(rng.integers(1, min(8, len(f.p) - 1) + 1)), exclude_ii=f.q is None)
            if nonzero:
                kw["r_min"] = 0.01
            return kw
        if k == "nlist":
            m = int(rng.integers(1, 60))
            i = np.sort(rng.integers(0, f.nq, size=m))
            j = rng.integers(0, len(f.p), size=m)
            v = rng.integers(-4, 5, size=(m, 3)) * 0.5 if exact else rng.normal(size=(m, 3)) * f.ob.L[: f.ob.d].min() * 0.25
            v = v.astype(float)
            if f.ob.is2D:
                v[:, 2] = 0
            v[(v == 0).all(1), 0] = 0.5
            w = rng.integers(1, 5, size=m) * 0.5 if rng.random() < 0.5 else None
            return ("nlist", i, j, f32(v), w)
        r = f.ob.rlim() * rng.uniform(0.3, 0.95)
        if exact:
            r = max(0.5, np.floor(r * 4) / 4)
        kw = dict(r_max=float(np.float32(r)))
        if rng.random() < 0.3:
            kw["mode"] = "ball"
        if nonzero:
            kw["r_min"] = 0.25
        if rng.random() < 0.3 and not nonzero:
            kw["exclude_ii"] = bool(rng.random() < 0.5)
        return kw

    def call(self, obj, f, reset=None, conv=lambda a: a, system=None, neighbors=None):
        kw = {}
        args = []
        if self.needs_sys:
            if system is None:
                system = (f.ob.freud(), conv(f.p))
            args.append(system)
        if f.q is not None and self.qok:
            kw["query_points"] = conv(f.q)
        for k, (kind, a) in f.arrays.items():
            kw[k] = conv(a)
        nn = f.nlist(conv) if neighbors is None else neighbors
        if nn is not None:
            kw["neighbors"] = nn
        kw.update(f.kw)
        if reset is not None and self.accum:
            kw["reset"] = reset
        return obj.compute(*args, **kw)

    def read(self, obj, only=None):
        out = {}
        for a in self.reads:
            if only is None or a in only:
                out[a] = as_array(getattr(obj, a))
        return out

    # which results scale how when all lengths are multiplied by s: exponent (None: not compared)
    units = {}


def relative(rng, e, P, prev, dim=None):
    """A frame that differs from prev in little: a box of the same lengths in another order, of the same volume, with other tilts or one other length, the same
    or exchanged sizes, the same points, the same neighbor arguments: what caches keyed by too little would mistake for prev."""
    if not e.needs_sys or e.name == "DiffractionPattern" or prev.ob is None or not prev.ob.periodic.all():
        return e.frame(rng, P, like=prev if prev.ob is not None else None, dim=dim)
    o, d = prev.ob, prev.ob.d
    ob = o
    for _ in range(20):
        L, t = o.L.astype(float).copy(), np.array([o.xy, o.xz, o.yz], float)
        k = int(rng.integers(8))
        a, b = rng.permutation(d)[:2]
        if k == 0:
            L[[a, b]] = L[[b, a]]
        elif k == 1:
            L[a] *= 1.25
            L[b] /= 1.25
        elif k == 2:
            L[a] *= rng.choice([0.8, 1.01, 1.3])
        elif k == 3:
            t = -t
        elif k == 4:
            t = rng.permutation(t) if d == 3 else t * 0.5
        elif k == 5:
            t = np.zeros(3) if t.any() else np.array([0.25, 0.25 * (d == 3), 0])
        elif k == 6:
            L = np.full(3, np.prod(L[:d]) ** (1 / d))
        if getattr(type(e), "box") is not Entry.box:      # no tilts there
            t = np.array([o.xy, o.xz, o.yz], float)
        L, t = L.astype(np.float32), t.astype(np.float32)
        c = geo.OBox(L[0], L[1], 0 if d == 2 else L[2], t[0], t[1] * (d == 3), t[2] * (d == 3), is2D=d == 2)
        if c.rlim() > 1.45:
            ob = c
            break
    n, nqq = len(prev.p), None if prev.q is None else len(prev.q)
    r = rng.random()
    if r < 0.15 and nqq is not None:
        n, nqq = nqq, n
    elif r < 0.3:
        n += 1
    f = e.frame(rng, P, like=Frame(ob, np.zeros((n, 3)), None if nqq is None else np.zeros((nqq, 3))))
    if n == len(prev.p) and rng.random() < 0.4:
        f.p = f32(f.ob.abs(np.clip(o.frac(prev.p), 0, 0.9999)) * [1, 1, d == 3])
        if f.q is not None and prev.q is not None and len(f.q) == len(prev.q) and rng.random() < 0.7:
            f.q = f32(f.ob.abs(np.clip(o.frac(prev.q), 0, 0.9999)) * [1, 1, d == 3])
    if isinstance(prev.neighbors, dict) and isinstance(f.neighbors, dict) and rng.random() < 0.5 and "num_neighbors" not in prev.neighbors and prev.neighbors.get("r_max", 0) < f.ob.rlim() * 0.95:
        f.neighbors = dict(prev.neighbors)
    for name in list(f.arrays):
        if name in prev.arrays and f.arrays[name][1].shape == prev.arrays[name][1].shape and rng.random() < 0.3:
            f.arrays[name] = [f.arrays[name][0], prev.arrays[name][1].copy()]
    return f


def quats(rng, n):
    return geo.random_quats(rng, n)


def zquats(rng, n):
    t = rng.uniform(-np.pi, np.pi, size=n)
    return f32(np.stack([np.cos(t / 2), 0 * t, 0 * t, np.sin(t / 2)], 1))


class ClusterE(Entry):
    name, qok, dims = "Cluster", False, (2, 3)
    reads, ints = ("num_clusters", "cluster_idx", "cluster_keys"), ("num_clusters", "cluster_idx", "cluster_keys")

    def new(self, P):
        return fr.freud.cluster.Cluster()

    def fill(self, rng, P, f, exact):
        f.neighbors = self.rand_neighbors(rng, f, exact, none_ok=False)
        if isinstance(f.neighbors, dict) and "r_max" in f.neighbors and rng.random() < 0.6:
            f.neighbors["r_max"] = float(np.float32(f.neighbors["r_max"] * 0.4)) if not exact else 0.75
        if rng.random() < 0.5:
            f.arrays["keys"] = ["p", rng.integers(0, 50, size=len(f.p)).astype(np.uint32)]
    units = dict(num_clusters=0, cluster_idx=0, cluster_keys=0)


class ClusterPropertiesE(Entry):
    name, qok = "ClusterProperties", False
    reads = ("centers", "centers_of_mass", "gyrations", "inertia_tensors", "sizes", "cluster_masses", "radii_of_gyration")
    ints = ("sizes",)

    def new(self, P):
        return fr.freud.cluster.ClusterProperties()

    def fill(self, rng, P, f, exact):
        k = int(rng.integers(1, max(2, len(f.p) // 2)))
        f.arrays["cluster_idx"] = ["p", np.concatenate([np.arange(min(k, len(f.p))), rng.integers(0, k, size=max(0, len(f.p) - k))]).astype(np.uint32)]
        if rng.random() < 0.5:
            f.arrays["masses"] = ["p", f32(rng.integers(1, 9, size=len(f.p)) * 0.25)]
    units = dict(centers=1, centers_of_mass=1, gyrations=2, inertia_tensors=2, sizes=0, cluster_masses=0, radii_of_gyration=1)


class RDFE(Entry):
    name, accum = "RDF", True
    reads, ints = ("rdf", "n_r", "bin_counts"), ("bin_counts",)
    lengths = ("r_max", "r_min")
    samesize = True

    def params(self, rng):
        P = dict(bins=int(rng.integers(1, 30)), r_max=float(rng.choice([1.0, 1.25, 1.4])), r_min=0.0, normalization_mode=("exact", "finite_size")[int(rng.integers(2))])
        if rng.random() < 0.3:
            P["r_min"] = 0.5
        return P

    def new(self, P):
        return fr.freud.density.RDF(**P)

    def fill(self, rng, P, f, exact):
        f.neighbors = self.rand_neighbors(rng, f, exact)
    units = dict(rdf=0, n_r=0, bin_counts=0)


class CorrelationE(Entry):
    name, accum = "CorrelationFunction", True
    reads, ints = ("correlation", "bin_counts"), ("bin_counts",)
    lengths = ("r_max",)
    units = dict(correlation=0, bin_counts=0)

    def params(self, rng):
        return dict(bins=int(rng.integers(1, 20)), r_max=float(rng.choice([1.0, 1.25, 1.4])))

    def new(self, P):
        return fr.freud.density.CorrelationFunction(**P)

    def fill(self, rng, P, f, exact):
        f.neighbors = self.rand_neighbors(rng, f, exact)
        c = rng.random() < 0.5

        def vals(n):
            v = rng.integers(-8, 9, size=n) * 0.25 if exact else rng.normal(size=n)
            return v + 1j * rng.normal(size=n) if c else v.astype(float)
        f.arrays["values"] = ["p", vals(len(f.p))]
        if f.q is not None or rng.random() < 0.3:
            f.arrays["query_values"] = ["q", vals(f.nq)]


class LocalDensityE(Entry):
    name = "LocalDensity"
    reads, ints = ("num_neighbors", "density"), ()
    lengths = ("r_max", "diameter")
    units = dict(num_neighbors=0, density="-d")

    def params(self, rng):
        return dict(r_max=float(rng.choice([0.75, 1.0, 1.2])), diameter=float(rng.choice([0.25, 0.5])))

    def new(self, P):
        return fr.freud.density.LocalDensity(**P)

    def fill(self, rng, P, f, exact):
        f.neighbors = self.rand_neighbors(rng, f, exact)


class GaussianE(Entry):
    name, qok = "GaussianDensity", False
    reads = ("density",)
    lengths = ("r_max", "sigma")
    units = dict(density="-d")

    def box(self, rng, d):
        return geo.random_box(rng, d, lo=3.0, hi=12.0, tilt=False)

    def params(self, rng):
        w = [int(x) for x in rng.integers(2, 12, size=3)]
        return dict(width=w if rng.random() < 0.7 else w[0], r_max=1.25, sigma=float(rng.choice([0.25, 0.5, 1.0])))

    def new(self, P):
        return fr.freud.density.GaussianDensity(**P)

    def frame(self, rng, P, like=None, exact=False, dim=None):
        if like is None and dim is None and not isinstance(P["width"], int):
            dim = 3
        return super().frame(rng, P, like, exact, dim)

    def fill(self, rng, P, f, exact):
        if rng.random() < 0.5:
            f.arrays["values"] = ["p", f32(rng.integers(1, 9, size=len(f.p)) * 0.25)]


class VoxelE(GaussianE):
    name = "SphereVoxelization"
    reads, ints = ("voxels",), ("voxels",)
    lengths = ("r_max",)
    units = dict(voxels=0)

    def params(self, rng):
        P = super().params(rng)
        P.pop("sigma")
        return P

    def new(self, P):
        return fr.freud.density.SphereVoxelization(**P)

    def fill(self, rng, P, f, exact):
        pass


class BondOrderE(Entry):
    name, accum = "BondOrder", True
    reads, ints = ("bond_order", "bin_counts"), ("bin_counts",)
    units = dict(bond_order=0, bin_counts=0)

    def params(self, rng):
        return dict(bins=(int(rng.integers(2, 16)), int(rng.integers(2, 12))), mode=("bod", "lbod", "obcd", "oocd")[int(rng.integers(4))])

    def new(self, P):
        return fr.freud.environment.BondOrder(**P)

    def fill(self, rng, P, f, exact):
        f.p = distinct(f.p)
        if f.q is not None:
            f.q = distinct(f.q)
        f.neighbors = self.rand_neighbors(rng, f, exact, none_ok=False, nonzero=True)
        f.arrays["orientations"] = ["p", quats(rng, len(f.p))]
        if f.q is not None:
            f.arrays["query_orientations"] = ["q", quats(rng, len(f.q))]


def distinct(p):
    """Zero-length bonds have no direction."""
    return p


class ASNE(Entry):
    name = "AngularSeparationNeighbor"
    reads = ("angles", "nlist")
    units = dict(angles=0)

    def new(self, P):
        return fr.freud.environment.AngularSeparationNeighbor()

    def fill(self, rng, P, f, exact):
        f.neighbors = self.rand_neighbors(rng, f, exact, none_ok=False)
        f.arrays["orientations"] = ["p", quats(rng, len(f.p))]
        if f.q is not None:
            f.arrays["query_orientations"] = ["q", quats(rng, len(f.q))]
        if rng.random() < 0.5:
            f.arrays["equiv_orientations"] = ["o", quats(rng, int(rng.integers(1, 5)))]


class ASGE(Entry):
    name, needs_sys, qok = "AngularSeparationGlobal", False, False
    reads = ("angles",)
    units = dict(angles=0)

    def new(self, P):
        return fr.freud.environment.AngularSeparationGlobal()

    def fill(self, rng, P, f, exact):
        f.arrays["global_orientations"] = ["o", quats(rng, int(rng.integers(1, 5)))]
        f.arrays["orientations"] = ["p", quats(rng, len(f.p))]
        if rng.random() < 0.5:
            f.arrays["equiv_orientations"] = ["o", quats(rng, int(rng.integers(1, 5)))]


class LBPE(Entry):
    name = "LocalBondProjection"
    reads = ("projections", "normed_projections", "nlist")
    units = dict(projections=1, normed_projections=0)

    def new(self, P):
        return fr.freud.environment.LocalBondProjection()

    def fill(self, rng, P, f, exact):
        f.neighbors = self.rand_neighbors(rng, f, exact, none_ok=False, nonzero=True)
        f.arrays["orientations"] = ["p", quats(rng, len(f.p))]
        f.arrays["proj_vecs"] = ["o", f32(rng.integers(-3, 4, size=(int(rng.integers(1, 5)), 3)) + 0.5)]
        if rng.random() < 0.5:
            f.arrays["equiv_orientations"] = ["o", quats(rng, int(rng.integers(1, 5)))]


class HexaticE(Entry):
    name, qok, dims = "Hexatic", False, (2,)
    reads = ("particle_order",)
    units = dict(particle_order=0)

    def params(self, rng):
        return dict(k=int(rng.choice([2, 3, 4, 6])), weighted=bool(rng.random() < 0.4))

    def new(self, P):
        return fr.freud.order.Hexatic(**P)

    def fill(self, rng, P, f, exact):
        f.neighbors = self.rand_neighbors(rng, f, exact, none_ok=False, nonzero=True)


class CubaticE(Entry):
    name, needs_sys, qok = "Cubatic", False, False
    reads = ("order", "orientation", "particle_order", "global_tensor", "cubatic_tensor")
    units = dict.fromkeys(("order", "orientation", "particle_order", "global_tensor", "cubatic_tensor"), 0)

    def params(self, rng):
        return dict(t_initial=float(rng.choice([1.0, 5.0])), t_final=0.05, scale=float(rng.choice([0.5, 0.7])), n_replicates=int(rng.integers(1, 5)), seed=int(rng.integers(100)))

    def new(self, P):
        return fr.freud.order.Cubatic(**P)

    def fill(self, rng, P, f, exact):
        f.arrays["orientations"] = ["p", quats(rng, len(f.p))]


class RotAutoE(Entry):
    name, needs_sys, qok = "RotationalAutocorrelation", False, False
    reads = ("order", "particle_order")
    units = dict(order=0, particle_order=0)

    def params(self, rng):
        return dict(l=int(rng.integers(1, 7)) * 2)

    def new(self, P):
        return fr.freud.order.RotationalAutocorrelation(**P)

    def fill(self, rng, P, f, exact):
        f.arrays["ref_orientations"] = ["p", quats(rng, len(f.p))]
        f.arrays["orientations"] = ["p", quats(rng, len(f.p))]


class PMFTE(Entry):
    accum = True
    reads, ints = ("pmft", "bin_counts"), ("bin_counts",)
    samesize = True
    units = dict(pmft=0, bin_counts=0)

    def fill(self, rng, P, f, exact):
        f.neighbors = self.rand_neighbors(rng, f, exact)
        qs = zquats if f.ob.is2D else quats

        def ori(n):
            if f.ob.is2D and rng.random() < 0.5:
                return f32(rng.uniform(-3, 3, size=n)) if not exact else f32(np.zeros(n))
            return qs(rng, n)
        if self.both:
            f.arrays["orientations"] = ["p", ori(len(f.p))]
            if f.q is not None:
                f.arrays["query_orientations"] = ["q", ori(len(f.q))]
        else:
            f.arrays["query_orientations"] = ["q", ori(f.nq)]
        self.more(rng, P, f)

    def more(self, rng, P, f):
        pass
    both = False


class PMFTR12E(PMFTE):
    name, dims, both = "PMFTR12", (2,), True
    lengths = ("r_max",)

    def params(self, rng):
        return dict(r_max=1.25, bins=[int(x) for x in rng.integers(2, 8, size=3)] if rng.random() < 0.7 else int(rng.integers(2, 8)))

    def new(self, P):
        return fr.freud.pmft.PMFTR12(**P)


class PMFTXYTE(PMFTE):
    name, dims, both = "PMFTXYT", (2,), True
    lengths = ("x_max", "y_max")

    def params(self, rng):
        return dict(x_max=1.0, y_max=0.75, bins=[int(x) for x in rng.integers(2, 8, size=3)] if rng.random() < 0.7 else int(rng.integers(2, 8)))

    def new(self, P):
        return fr.freud.pmft.PMFTXYT(**P)


class PMFTXYE(PMFTE):
    name, dims = "PMFTXY", (2,)
    lengths = ("x_max", "y_max")

    def params(self, rng):
        return dict(x_max=1.0, y_max=0.75, bins=[int(x) for x in rng.integers(2, 10, size=2)] if rng.random() < 0.7 else int(rng.integers(2, 8)))

    def new(self, P):
        return fr.freud.pmft.PMFTXY(**P)


class PMFTXYZE(PMFTE):
    name, dims = "PMFTXYZ", (3,)
    lengths = ("x_max", "y_max", "z_max", "shiftvec")

    def params(self, rng):
        P = dict(x_max=0.75, y_max=0.75, z_max=0.5, bins=[int(x) for x in rng.integers(2, 8, size=3)] if rng.random() < 0.7 else int(rng.integers(2, 8)))
        if rng.random() < 0.3:
            P["shiftvec"] = [0.125, 0.0, -0.125]
        P["_neq"] = int(rng.integers(0, 4))
        return P

    def new(self, P):
        return fr.freud.pmft.PMFTXYZ(**{k: v for k, v in P.items() if k[0] != "_"})

    def more(self, rng, P, f):
        if P["_neq"]:
            f.arrays["equiv_orientations"] = ["o", quats(rng, P["_neq"])]


class DebyeE(Entry):
    name, accum = "StaticStructureFactorDebye", True
    reads = ("S_k", "min_valid_k")
    lengths = ()
    inverse = ("k_max", "k_min")
    units = dict(S_k=0, min_valid_k=-1)
    wantq = 0.3

    def params(self, rng):
        return dict(num_k_values=int(rng.integers(2, 20)), k_max=float(rng.choice([4.0, 6.5])), k_min=float(rng.choice([0, 0, 0.5])))

    def new(self, P):
        return fr.freud.diffraction.StaticStructureFactorDebye(**P)

    def fill(self, rng, P, f, exact):
        if f.q is not None:
            f.kw["N_total"] = len(f.p) + len(f.q)


class DiffractionE(Entry):
    name, accum, qok, dims = "DiffractionPattern", True, False, (3,)
    reads = ("diffraction", "k_values", "k_vectors")
    lastframe = ("k_values", "k_vectors")
    units = dict(diffraction=None, k_values=-1, k_vectors=-1)

    def params(self, rng):
        return dict(grid_size=int(rng.integers(4, 24)), output_size=int(rng.integers(3, 24)))

    def new(self, P):
        return fr.freud.diffraction.DiffractionPattern(**P)

    def box(self, rng, d):
        L = rng.uniform(3, 12)
        return geo.OBox(L, L, L)

    def frame(self, rng, P, like=None, exact=False, dim=None):
        f = super().frame(rng, P, like, exact, dim)
        if exact and like is None:
            f.ob = geo.OBox(8, 8, 8)
            f.p = geo.exact_points(rng, f.ob, len(f.p), step=0.5)
        return f

    def fill(self, rng, P, f, exact):
        if rng.random() < 0.5 and not exact:
            f.arrays["view_orientation"] = ["o", quats(rng, 1)[0].astype(float)]
        if rng.random() < 0.4:
            f.arrays["weights"] = ["p", rng.integers(1, 9, size=len(f.p)) * 0.25]
        f.kw["zoom"] = float(rng.choice([1, 2, 4]))


class MSDE(Entry):
    name, accum, qok, needs_sys = "MSD", True, False, False
    reads = ("msd", "particle_msd")
    units = dict(msd=2, particle_msd=2)

    def params(self, rng):
        ob = geo.random_box(rng, lo=2, hi=6) if rng.random() < 0.5 else None
        return dict(ob=ob, mode=("window", "direct")[int(rng.integers(2))], T=int(rng.integers(1, 9)))

    def new(self, P):
        return fr.freud.msd.MSD(None if P["ob"] is None else P["ob"].freud(), P["mode"])

    def fill(self, rng, P, f, exact):
        f.arrays["positions"] = ["o", f32(rng.normal(size=(P["T"], len(f.p), 3)))]
        if P["ob"] is not None:
            im = rng.integers(-2, 3, size=(P["T"], len(f.p), 3))
            if P["ob"].is2D:
                im[..., 2] = 0
            f.arrays["images"] = ["o", im.astype(np.int32)]


class InterfaceE(Entry):
    name, qok, wantq = "Interface", "always", 1.0
    reads = ("point_ids", "query_point_ids", "point_count", "query_point_count")
    ints = reads
    units = dict.fromkeys(reads, 0)

    def new(self, P):
        return fr.freud.interface.Interface()

    def fill(self, rng, P, f, exact):
        f.neighbors = self.rand_neighbors(rng, f, exact, none_ok=False)


class _Holder:
    """Turns a function into something that computes."""

    def __init__(self, fn):
        self.fn = fn

    def compute(self, *a, **k):
        self.__dict__.update(self.fn(*a, **k))
        return self


def canon(nl):
    """Bond table as a sorted float array."""
    a = as_array(nl)
    return a[np.lexsort(np.round(a.T[::-1], 5))] if len(a) else a


class QueryE(Entry):
    name = "AABBQuery.query"
    reads = ("bonds", "counts", "segments")
    ints = ("counts", "segments")
    units = dict(counts=0, segments=0)
    kind = "AABB"

    def params(self, rng):
        return dict(sort=bool(rng.random() < 0.5))

    def new(self, P):
        def fn(system, query_points=None, neighbors=None):
            nq = self.finder(system)
            nl = nq.query(nq.points if query_points is None else query_points, neighbors).toNeighborList(sort_by_distance=P["sort"])
            return dict(bonds=nl, counts=np.array(nl.neighbor_counts), segments=np.array(nl.segments), nq=nq)
        return _Holder(fn)

    def finder(self, system):
        return fr.freud.locality.AABBQuery(*system)

    def fill(self, rng, P, f, exact):
        f.neighbors = self.rand_neighbors(rng, f, exact, none_ok=False, kinds=("ball", "num"))


class LinkCellE(QueryE):
    name = "LinkCell.query"

    def finder(self, system):
        b = system[0]
        h = min(geo.OBox(b.Lx, b.Ly, b.Lz, b.xy, b.xz, b.yz, is2D=b.is2D).planes()[: 2 if b.is2D else 3])
        return fr.freud.locality.LinkCell(*system, cell_width=float(h) * 0.45)


class FilterE(Entry):
    qok = False
    reads = ("filtered_nlist", "unfiltered_nlist")

    def fill(self, rng, P, f, exact):
        while True:
            f.neighbors = self.rand_neighbors(rng, f, exact, none_ok=False, kinds=("ball", "num"))
            f.neighbors["exclude_ii"] = True
            break


class SANNE(FilterE):
    name = "FilterSANN"

    def new(self, P):
        return fr.freud.locality.FilterSANN(allow_incomplete_shell=True)


class RADE(FilterE):
    name = "FilterRAD"

    def params(self, rng):
        return dict(terminate_after_blocked=bool(rng.random() < 0.5))

    def new(self, P):
        return fr.freud.locality.FilterRAD(allow_incomplete_shell=True, **P)


class BufferE(Entry):
    name, qok = "PeriodicBuffer", False
    reads, ints = ("buffer_points", "buffer_ids"), ("buffer_ids",)
    units = dict(buffer_points=1, buffer_ids=0)

    def new(self, P):
        return fr.freud.locality.PeriodicBuffer()

    def fill(self, rng, P, f, exact):
        d = f.ob.d
        if rng.random() < 0.5:
            f.kw = dict(buffer=float(f.ob.planes()[:d].min() * 0.25), images=False)
        else:
            f.kw = dict(buffer=[1] * 3 if d == 3 else [1, 2, 0], images=True)
        f.kw["include_input_points"] = bool(rng.random() < 0.5)


class BoxE(Entry):
    name = "Box.wrap"
    reads = ("wrapped", "images", "unwrapped", "frac", "absolute", "dist", "com", "mask")
    qok, wantq = "always", 1.0
    ints = ("images", "mask")

    def new(self, P):
        def fn(system, query_points):
            b, p = system
            r = {}
            r["wrapped"] = b.wrap(p)
            r["images"] = b.get_images(p)
            r["unwrapped"] = b.unwrap(p, np.ones((1, 3), int))
            r["frac"] = b.make_fractional(p)
            r["absolute"] = b.make_absolute(r["frac"])
            r["dist"] = b.compute_all_distances(p, query_points)
            r["com"] = b.center_of_mass(p)
            r["mask"] = b.contains(p)
            return r
        return _Holder(fn)


class DataE(Entry):
    name, needs_sys, qok = "UnitCell", False, False
    reads, ints = ("points",), ("points",)

    def new(self, P):
        def fn(num_replicas, scale, basis):
            u = fr.freud.data.UnitCell([1, 1, 1], basis)
            b, p = u.generate_system(num_replicas, scale=scale)
            return dict(points=p)
        return _Holder(fn)

    def fill(self, rng, P, f, exact):
        f.kw = dict(num_replicas=int(rng.integers(1, 4)), scale=1.5)
        f.arrays["basis"] = ["o", rng.random((int(rng.integers(1, 4)), 3))]


ALL = [c() for c in (ClusterE, ClusterPropertiesE, RDFE, CorrelationE, LocalDensityE, GaussianE, VoxelE, BondOrderE, ASNE, ASGE, LBPE, HexaticE, CubaticE, RotAutoE, PMFTR12E, PMFTXYTE,
                     PMFTXYE, PMFTXYZE, DebyeE, DiffractionE, MSDE, InterfaceE, QueryE, LinkCellE, SANNE, RADE, BufferE, BoxE, DataE)]


# ---- classes of the full build --------------------------------------------------------------------------------
class ExtraE(Entry):
    qok = False


class VoronoiE(ExtraE):
    name = "Voronoi"
    reads = ("polytopes", "volumes", "nlist")
    units = dict(polytopes=1, volumes="d")

    def new(self, P):
        return fr.freud.locality.Voronoi()

    def frame(self, rng, P, like=None, exact=False, dim=None):
        return super().frame(rng, P, like, False, dim)

    def fill(self, rng, P, f, exact):
        apart(rng, f)


def apart(rng, f):
    """Points on a jittered grid: Voronoi cells need distinct points."""
    n, d = len(f.p), f.ob.d
    m = int(np.ceil(n ** (1 / d)))
    g = np.stack(np.unravel_index(rng.permutation(m ** d)[:n], (m,) * d), 1)
    x = np.zeros((n, 3))
    x[:, :d] = (g + rng.uniform(0.15, 0.85, size=(n, d))) / m
    if f.ob.is2D:
        x[:, 2] = 0.5
    f.p = f32(f.ob.abs(x))
    if f.ob.is2D:
        f.p[:, 2] = 0


class SteinhardtE(ExtraE):
    name = "Steinhardt"
    reads = ("order", "particle_order", "ql", "particle_harmonics")
    units = dict(order=0, particle_order=0, ql=0)

    def params(self, rng):
        l = [int(x) for x in rng.integers(0, 9, size=int(rng.integers(1, 4)))]
        return dict(l=l if rng.random() < 0.7 else l[0], average=bool(rng.random() < 0.5), wl=bool(rng.random() < 0.5), weighted=bool(rng.random() < 0.4), wl_normalize=bool(rng.random() < 0.4))

    def new(self, P):
        return fr.freud.order.Steinhardt(**P)

    def fill(self, rng, P, f, exact):
        f.neighbors = self.rand_neighbors(rng, f, exact, none_ok=False, nonzero=True)


class SolidLiquidE(ExtraE):
    name = "SolidLiquid"
    reads = ("ql_ij", "particle_harmonics", "cluster_idx", "cluster_sizes", "largest_cluster_size", "num_connections", "nlist")

    def params(self, rng):
        return dict(l=int(rng.choice([4, 6])), q_threshold=float(rng.choice([0.3, 0.6])), solid_threshold=int(rng.integers(0, 5)), normalize_q=bool(rng.random() < 0.5))

    def new(self, P):
        return fr.freud.order.SolidLiquid(**P)

    def fill(self, rng, P, f, exact):
        f.neighbors = self.rand_neighbors(rng, f, exact, none_ok=False, nonzero=True, kinds=("ball", "num"))
        f.neighbors["exclude_ii"] = True


class CoordinationE(VoronoiE):
    name = "ContinuousCoordination"
    reads = ("coordination", "particle_order")
    units = dict(coordination=0)

    def params(self, rng):
        return dict(powers=[float(x) for x in rng.choice([1.5, 2.0, 2.5, 3.0], size=int(rng.integers(0, 3)))] or None, compute_log=True, compute_exp=bool(rng.random() < 0.5))

    def new(self, P):
        return fr.freud.order.ContinuousCoordination(**P)


class NematicE(ExtraE):
    name, needs_sys = "Nematic", False
    reads = ("order", "director", "particle_tensor", "nematic_tensor")
    units = dict.fromkeys(reads, 0)

    def new(self, P):
        return fr.freud.order.Nematic()

    def fill(self, rng, P, f, exact):
        f.arrays["orientations"] = ["p", f32(rng.integers(1, 9, size=(len(f.p), 3)) * 0.25 * rng.choice([-1, 1], size=(len(f.p), 3)) * [1, 1, 3])]


class EnvClusterE(ExtraE):
    name = "EnvironmentCluster"
    reads = ("cluster_idx", "num_clusters", "cluster_environments", "point_environments")

    def new(self, P):
        return fr.freud.environment.EnvironmentCluster()

    def fill(self, rng, P, f, exact):
        f.neighbors = self.rand_neighbors(rng, f, exact, none_ok=False, nonzero=True, kinds=("ball", "num", "nlist"))
        f.kw = dict(threshold=float(rng.choice([0.1, 0.3, 0.6])), registration=False)

    def call(self, obj, f, reset=None, conv=lambda a: a, system=None, neighbors=None):
        if system is None:
            system = (f.ob.freud(), conv(f.p))
        return obj.compute(system, cluster_neighbors=f.nlist(conv) if neighbors is None else neighbors, **f.kw)


class MotifE(ExtraE):
    name = "EnvironmentMotifMatch"
    reads = ("matches", "point_environments")

    def new(self, P):
        return fr.freud.environment.EnvironmentMotifMatch()

    def fill(self, rng, P, f, exact):
        f.neighbors = self.rand_neighbors(rng, f, exact, none_ok=False, nonzero=True, kinds=("ball", "num", "nlist"))
        f.arrays["motif"] = ["o", f32(rng.uniform(-1, 1, size=(int(rng.integers(1, 8)), 3)) * [1, 1, not f.ob.is2D])]
        f.kw = dict(threshold=float(rng.choice([0.1, 0.5, 1.0])), registration=False)

    def call(self, obj, f, reset=None, conv=lambda a: a, system=None, neighbors=None):
        if system is None:
            system = (f.ob.freud(), conv(f.p))
        return obj.compute(system, conv(f.arrays["motif"][1]), env_neighbors=f.nlist(conv) if neighbors is None else neighbors, **f.kw)


class DescriptorsE(ExtraE):
    name, qok = "LocalDescriptors", True
    reads = ("sph", "num_sphs", "nlist")

    def params(self, rng):
        return dict(l_max=int(rng.integers(0, 7)), negative_m=bool(rng.random() < 0.5), mode=("neighborhood", "global", "particle_local")[int(rng.integers(3))])

    def new(self, P):
        return fr.freud.environment.LocalDescriptors(**P)

    def fill(self, rng, P, f, exact):
        f.neighbors = self.rand_neighbors(rng, f, exact, none_ok=False, nonzero=True)
        if P["mode"] == "particle_local":
            f.arrays["orientations"] = ["q", quats(rng, f.nq)]
        if rng.random() < 0.4:
            f.kw["max_num_neighbors"] = int(rng.integers(1, 20))


class DirectE(ExtraE):
    name, accum, qok, wantq = "StaticStructureFactorDirect", True, True, 0.3
    reads = ("S_k", "min_valid_k", "k_points")
    lastframe = ("k_points",)

    def params(self, rng):
        return dict(bins=int(rng.integers(1, 15)), k_max=float(rng.choice([3.0, 4.0])), k_min=float(rng.choice([0, 0, 0.5])))

    def new(self, P):
        return fr.freud.diffraction.StaticStructureFactorDirect(**P)

    def fill(self, rng, P, f, exact):
        if f.q is not None:
            f.kw["N_total"] = len(f.p) + len(f.q)

    def read(self, obj, only=None):
        out = super().read(obj, only)
        if "k_points" in out:      # a set, in no particular order
            k = out["k_points"]
            out["k_points"] = k[np.lexsort(np.round(k.T, 5))]
        return out


EXTRA = [c() for c in (VoronoiE, SteinhardtE, SolidLiquidE, CoordinationE, NematicE, EnvClusterE, MotifE, DescriptorsE, DirectE)]
BY = {e.name: e for e in ALL + EXTRA}


def pool():
    """The analyses of this phase: those of the regular build, or those only the full build has."""
    return EXTRA if os.environ.get("VF_ZOO") == "extra" else ALL


def same(mon, e, got, want, what, exact=False, rtol=1e-5, atol=1e-5, skip=()):
    """Two readings agree: bit for bit where promised, otherwise to summation order."""
    mon.check(set(got) == set(want), what + ": same results", got=sorted(got), want=sorted(want))
    for k in want:
        if k in skip:
            continue
        a, b = got[k], want[k]
        mon.check(a.shape == b.shape, "%s: %s.%s has shape %s, expected %s" % (what, e.name, k, a.shape, b.shape))
        if exact or k in e.ints:
            ok = np.array_equal(a, b, equal_nan=True)
            mon.check(ok, "%s: %s.%s differs" % (what, e.name, k), got=a, want=b, where=np.argwhere(~((a == b) | (np.isnan(a) & np.isnan(b))))[:5])
        else:
            s = np.abs(b[np.isfinite(b)]).max() if b.size and np.isfinite(b).any() else 0.0
            mon.close(a, b, "%s: %s.%s" % (what, e.name, k), rtol=rtol, atol=atol * (1e-3 + s))

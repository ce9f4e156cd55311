"""Reference geometry in double precision, and generators of boxes and points."""
import numpy as np
from vf import fr

EPS = 3e-7


class OBox:
    """Double-precision model of a freud box whose parameters are single-precision numbers."""

    def __init__(self, Lx, Ly, Lz=0, xy=0, xz=0, yz=0, is2D=None, periodic=(True, True, True)):
        f = lambda x: float(np.float32(x))
        if is2D is None:
            is2D = Lz == 0
        self.is2D = bool(is2D)
        self.L = np.array([f(Lx), f(Ly), 0.0 if is2D else f(Lz)])
        self.xy, self.xz, self.yz = f(xy), f(xz), f(yz)
        self.periodic = np.array(periodic, dtype=bool)
        self.d = 2 if is2D else 3
        lx, ly, lz = self.L
        self.M = np.array([[lx, self.xy * ly, self.xz * lz], [0, ly, self.yz * lz], [0, 0, lz]])
        M = self.M.copy()
        if is2D:
            M[2, 2] = 1.0
        self.Mi = np.linalg.inv(M)
        self.Mi0 = self.Mi.copy()
        self.origin = -0.5 * self.M.sum(axis=1)

    def freud(self):
        lx, ly, lz = self.L
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            b = fr.freud.box.Box(lx, ly, lz, self.xy, self.xz, self.yz, is2D=self.is2D)
        if not self.periodic.all():
            b.periodic = [bool(x) for x in self.periodic]
        return b

    @property
    def volume(self):
        return self.L[0] * self.L[1] * (1 if self.is2D else self.L[2])

    @property
    def ortho(self):
        return self.xy == 0 and (self.is2D or (self.xz == 0 and self.yz == 0))

    def frac(self, v):
        """Fractional coordinates, 0..1 across the box (2D: z component 0)."""
        v = np.asarray(v, dtype=np.float64)
        f = (v - self.origin) @ self.Mi.T
        if self.is2D:
            f = f.copy()
            f[..., 2] = 0
        return f

    def abs(self, f):
        f = np.asarray(f, dtype=np.float64)
        v = f @ self.M.T + self.origin
        if self.is2D:
            v[..., 2] = 0
        return v

    def wrap(self, v):
        """Wrapped vector (freud convention: fractional part in [0,1) along periodic axes)."""
        v = np.asarray(v, dtype=np.float64)
        if not self.periodic.any():
            return v
        f = self.frac(v)
        p = self.periodic.copy()
        if self.is2D:
            p[2] = False
        f[..., p] -= np.floor(f[..., p])
        return self.abs(f)

    def near_face(self, v, tol):
        """Whether a vector is within tol (absolute length) of a face along a periodic axis."""
        f = self.frac(v)
        k = f - np.round(f)
        h = self.planes()
        p = self.periodic.copy()
        if self.is2D:
            p[2] = False
        with np.errstate(invalid="ignore"):
            return np.any((np.abs(k) * h < tol)[..., p], axis=-1)

    def planes(self):
        h = np.empty(3)
        for a in range(3):
            n = np.linalg.norm(self.Mi[a])
            h[a] = 1 / n
        if self.is2D:
            h[2] = np.inf
        return h

    def rlim(self):
        """Half the smallest distance between opposite faces (periodic ones, all axes)."""
        return self.planes()[: self.d].min() / 2

    def scale(self):
        return np.abs(self.M).sum()

    def tol(self, *arrays):
        m = self.scale()
        for a in arrays:
            a = np.asarray(a)
            if a.size:
                m += 2 * np.abs(a).max() * (1 + abs(self.xy) + abs(self.xz) + abs(self.yz))
        return 4 * EPS * m

    def shifted(self, rng, pts, n=2):
        """The same points given in random other images."""
        k = rng.integers(-n, n + 1, size=(len(pts), 3))
        k[:, ~self.periodic] = 0
        if self.is2D:
            k[:, 2] = 0
        return (np.asarray(pts, np.float64) + k @ self.M.T).astype(np.float32)

    def params(self):
        return dict(L=self.L.tolist(), tilts=[self.xy, self.xz, self.yz], is2D=self.is2D, periodic=self.periodic.tolist())

    def key(self):
        return "%dD%s%s" % (self.d, "" if self.ortho else "t", "" if self.periodic[: self.d].all() else "np" + "".join(
            "01"[int(x)] for x in self.periodic[: self.d]))


def f32(x):
    return np.ascontiguousarray(x, dtype=np.float32)


def random_box(rng, dim=None, tilt=None, periodic=True, lo=2.0, hi=20.0, aniso=True, maxtilt=1.0):
    if dim is None:
        dim = 2 if rng.random() < 0.4 else 3
    if aniso and rng.random() < 0.7:
        L = np.exp(rng.uniform(np.log(lo), np.log(hi), size=3))
    else:
        L = np.full(3, np.exp(rng.uniform(np.log(lo), np.log(hi))))
    if rng.random() < 0.15:
        L = np.round(L) + 1
    t = np.zeros(3)
    if tilt is None:
        tilt = rng.random() < 0.6
    if tilt:
        t = rng.uniform(-maxtilt, maxtilt, size=3) * (rng.random(3) < 0.75)
        if rng.random() < 0.2:
            t = np.round(t * 4) / 4
    if dim == 2:
        t[1:] = 0
    per = np.array([True] * 3)
    if periodic == "random":
        if rng.random() < 0.5:
            per = rng.random(3) < 0.5
    L = L.astype(np.float32)
    t = t.astype(np.float32)
    return OBox(L[0], L[1], 0 if dim == 2 else L[2], t[0], t[1], t[2], is2D=dim == 2, periodic=per)


def exact_box(rng, dim=None, sizes=(4, 8, 16)):
    """Orthorhombic box with power-of-two lengths: all arithmetic on a dyadic grid is exact."""
    if dim is None:
        dim = 2 if rng.random() < 0.4 else 3
    L = rng.choice(sizes, size=3)
    return OBox(L[0], L[1], 0 if dim == 2 else L[2], is2D=dim == 2)


def exact_points(rng, ob, n, step=0.25):
    k = (ob.L / step).astype(int)
    p = np.zeros((n, 3))
    for a in range(ob.d):
        p[:, a] = rng.integers(0, k[a], size=n) * step - ob.L[a] / 2
    return f32(p)


MODES = ("uniform", "uniform", "uniform", "clustered", "lattice", "faces", "coincident", "jitter", "line")


def points(rng, ob, n, mode=None):
    """n points inside the box (fractional coordinates in [0,1)), single precision."""
    mode = mode or MODES[int(rng.integers(len(MODES)))]
    if mode in ("uniform", "huge"):
        f = rng.random((n, 3))
    elif mode == "clustered":
        k = max(1, n // 8)
        c = rng.random((k, 3))
        f = c[rng.integers(0, k, size=n)] + rng.normal(0, 0.03, size=(n, 3))
    elif mode == "lattice":
        m = int(rng.integers(2, 7))
        f = rng.integers(0, m, size=(n, 3)) / m
    elif mode == "jitter":
        m = int(np.ceil(max(n, 1) ** (1 / ob.d)))
        g = np.stack(np.meshgrid(*[np.arange(m)] * ob.d, indexing="ij"), -1).reshape(-1, ob.d)
        g = g[rng.permutation(len(g))[:n]]
        f = np.zeros((n, 3))
        f[:, : ob.d] = (g + 0.5) / m + rng.normal(0, 0.05 / m, size=g.shape)
    elif mode == "faces":
        f = rng.random((n, 3))
        m = rng.random((n, 3)) < 0.4
        f[m] = rng.choice([0.0, 0.0, 0.5, 1 - 1e-6], size=m.sum())
    elif mode == "coincident":
        f = rng.random((n, 3))
        if n > 1:
            src = rng.integers(0, n, size=n)
            cp = rng.random(n) < 0.3
            f[cp] = f[src[cp]]
    elif mode == "line":
        f = rng.random(3) + np.outer(np.sort(rng.random(n)), rng.normal(size=3))
    f = f - np.floor(f)
    if ob.is2D:
        f[:, 2] = 0
    return f32(ob.abs(f))


BIG = 0.004


def nonzero_n(rng, hi=150):
    r = rng.random()
    if r < BIG:          # a size of another order of magnitude
        return int(np.exp(rng.uniform(np.log(hi), np.log(min(12 * hi, 1500)))))
    r = (r - BIG) / (1 - BIG)
    if r < 0.05:
        return 1
    if r < 0.15:
        return int(rng.integers(2, 5))
    return int(np.exp(rng.uniform(np.log(5), np.log(hi))))


def pair_table(ob, q, p):
    """All wrapped displacement vectors point - query and distances: (Nq,Np,3), (Nq,Np)."""
    d = np.asarray(p, np.float64)[None, :, :] - np.asarray(q, np.float64)[:, None, :]
    v = ob.wrap(d)
    return v, np.sqrt((v * v).sum(-1))


def random_quats(rng, n, special=True):
    q = rng.normal(size=(n, 4))
    if special and n and rng.random() < 0.3:
        s = np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [np.sqrt(.5), 0, 0, np.sqrt(.5)], [-1, 0, 0, 0], [.5, .5, .5, .5]])
        m = rng.random(n) < 0.5
        q[m] = s[rng.integers(0, len(s), size=m.sum())]
    q /= np.linalg.norm(q, axis=1, keepdims=True)
    return f32(q)


def qmul(a, b):
    a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
    w = a[..., 0] * b[..., 0] - (a[..., 1:] * b[..., 1:]).sum(-1)
    v = a[..., :1] * b[..., 1:] + b[..., :1] * a[..., 1:] + np.cross(a[..., 1:], b[..., 1:])
    return np.concatenate([w[..., None], v], axis=-1)


def qconj(a):
    return np.asarray(a, np.float64) * np.array([1.0, -1, -1, -1])


def qrot(q, v):
    q, v = np.asarray(q, np.float64), np.asarray(v, np.float64)
    u, s = q[..., 1:], q[..., :1]
    return (s * s - (u * u).sum(-1, keepdims=True)) * v + 2 * s * np.cross(u, v) + 2 * (u * v).sum(-1, keepdims=True) * u

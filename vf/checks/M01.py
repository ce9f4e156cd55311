"""Mean squared displacements against the definition."""
import numpy as np
from vf import fr, geo
from vf.geo import f32

PHASES = dict(quick=[dict(variant="rel", dirs=[], cases=40000, cap=60)], thorough=[dict(variant="rel", dirs=[], cases=500000, cap=850)])
RULE = ("random trajectories (walks, drifts, jumps, constant, 1 frame, 1 particle) x window / direct x unwrapped or wrapped with images in orthorhombic, triclinic, 2D and partly periodic boxes x 1-4 computes "
        "accumulating particles, interleaved with reads, and global shifts; msd and particle_msd compared with the O(T^2) double-precision sums; non-trivial = some displacement far above the precision bound; "
        "distinct by (mode, box class, images, frames, particles, computes)")
REQUIRED = dict(windows_judged=200000, unwrapped_steps=20000, accumulated=2000)
ASSUMPTIONS = ["window mode is evaluated in single-precision FFTs: errors up to a few 1e-6 of the largest squared distance from the origin, times T/(T-m), are accepted"]


def trajectory(rng, T, N):
    k = int(rng.integers(6))
    if k == 0:
        r = rng.normal(size=(N, 3)) + np.zeros((T, 1, 1))
    elif k == 1:
        r = rng.normal(size=(N, 3)) + np.arange(T)[:, None, None] * rng.normal(size=(N, 3)) * rng.choice([0.05, 0.5])
    elif k == 2:
        r = rng.normal(size=(N, 3)) * 2 + np.sin(np.arange(T)[:, None, None] * rng.uniform(0.1, 2, size=(N, 3)))
    elif k == 3:
        r = rng.normal(size=(T, N, 3))
    else:
        r = rng.normal(size=(N, 3)) * 2 + np.cumsum(rng.normal(size=(T, N, 3)) * rng.choice([0.02, 0.3, 1.0]), axis=0)
    return r


def direct(R):
    return ((R - R[0]) ** 2).sum(-1)


def window(R):
    T = len(R)
    out = np.zeros(R.shape[:2])
    for m in range(T):
        out[m] = ((R[m:] - R[: T - m]) ** 2).sum(-1).mean(0)
    return out


def case(i, rng, mon):
    F = fr.freud
    T = int(rng.choice([1, 2, 3, 4, 7, 8, 16, int(rng.integers(5, 40))]))
    big = int(rng.integers(1, 4)) if rng.random() < 0.015 else 0      # many frames, particles, or computes
    if big == 1:
        T = int(np.exp(rng.uniform(np.log(40), np.log(2500))))
    mode = "window" if rng.random() < 0.6 else "direct"
    ob = None
    if rng.random() < 0.6:
        ob = geo.random_box(rng, periodic="random" if rng.random() < 0.2 else True, lo=1.5, hi=8)
    box = None if ob is None else ob.freud()
    if box is not None and ob.periodic.all() and rng.random() < 0.2 and ob.ortho and not ob.is2D:
        box = [float(x) for x in ob.L]
    if mode == "window" and rng.random() < 0.5:
        m = F.msd.MSD(box)
    else:
        m = F.msd.MSD(box=box, mode=mode)
    mon.check((m.box is None) == (ob is None), "box")
    if rng.random() < 0.2:
        m.compute(f32(rng.normal(size=(T + int(rng.integers(3)), 2, 3))), reset=True)
        if rng.random() < 0.5:
            m.msd
    ncomp = int(rng.integers(5, 40)) if big == 3 else int(rng.integers(2, 5)) if rng.random() < 0.4 else 1
    allp, scale = [], np.zeros(T)
    useimg_any = False
    for c in range(ncomp):
        N = 1 if rng.random() < 0.1 else int(rng.integers(1, 12 if big != 1 else 5))
        if big == 2 and rng.random() < 0.7:
            N = int(np.exp(rng.uniform(np.log(12), np.log(1e5 / T))))
        R = trajectory(rng, T, N)
        if rng.random() < 0.3:
            R = R + rng.normal(size=3) * rng.choice([1, 5, 20])
        kw = {}
        if ob is not None and rng.random() < 0.7:
            # wrapped positions and images, from a model trajectory in the box
            f = ob.frac(R)
            im = np.floor(f).astype(np.int64)
            if rng.random() < 0.3:
                im = im + rng.integers(-2, 3, size=(1, N, 3))
            elif rng.random() < 0.15:       # far from the first image
                im = im + rng.choice([-129, -128, 127, 128, 255, 300, -700], size=(1, N, 3))
            per = ob.periodic.copy()
            if ob.is2D:
                im[..., 2] = 0
                R = R.copy(); R[..., 2] = 0
            im[..., ~per] = 0
            pos = f32(R - im @ ob.M.T)
            ref = pos.astype(float) + im @ ob.M.T
            if rng.random() < 0.2:
                im = im.astype(rng.choice(["int32", "int64", "int16"]))
            kw["images"] = im if rng.random() < 0.9 else im.tolist()
            mon.event("unwrapped_steps", int((im != 0).any(-1).sum()))
            ext = np.abs(np.asarray(im)).max() * ob.scale() + np.abs(pos).max()
            useimg_any = True
        else:
            pos = f32(R)
            ref = pos.astype(float)
            ext = np.abs(pos).max()
            if ob is None and rng.random() < 0.1:
                # images without a box: positions are taken as they are
                kw["images"] = np.zeros(pos.shape, np.int32)
        before = pos.copy()
        mon.describe(mode=mode, box=None if ob is None else ob.params(), frames=T, particles=N, images="images" in kw, positions=pos)
        a = {} if c == 0 and rng.random() < 0.5 else dict(reset=c == 0)
        r = m.compute(pos, **kw, **a)
        mon.check(r is m, "compute returns the object")
        mon.check(np.array_equal(before, pos), "positions were modified")
        allp.append(window(ref) if mode == "window" else direct(ref))
        e2 = (ref ** 2).sum(-1).max()
        dmax = np.sqrt(allp[-1].max())
        # absolute error: precision of the (unwrapped) positions, and of the transforms
        pe = 1e-6 * ext
        tol = 4 * pe * dmax + 4 * pe * pe + 1e-6 * allp[-1].max() + 1e-12
        if mode == "window":
            tol = tol + 3e-6 * e2 * (1 + T / np.arange(T, 0, -1.0))
        scale = np.maximum(scale, tol)
        if c == ncomp - 1 or rng.random() < 0.4:
            want = np.concatenate(allp, axis=1)
            got = np.asarray(m.particle_msd)
            mon.close(got, want, "particle_msd (%s)" % mode, atol=scale[:, None], rtol=0)
            mon.close(np.asarray(m.msd), want.mean(1), "msd (%s)" % mode, atol=scale, rtol=0)
            mon.close(np.asarray(m.msd), got.mean(1), "msd is the particle mean", atol=scale * 0.05, rtol=1e-5)
            mon.event("windows_judged", want.size)
            if c:
                mon.event("accumulated")
            if want.max() > 20 * scale.min():
                mon.sig(mode, "none" if ob is None else ob.key(), "images" in kw, min(T, 9), min(want.shape[1], 9), ncomp)
    if ncomp == 1 and not kw and rng.random() < 0.3:
        s = f32(rng.normal(size=3) * 3)
        want = np.asarray(m.msd)
        got = np.asarray(m.compute(pos + s).msd)
        mon.close(got, want, "msd of the shifted trajectory", atol=4 * scale + 1e-5 * (np.abs(pos).max() + np.abs(s).max()) ** 2 * (3 if mode == "window" else 1), rtol=0)
    if rng.random() < 0.02:
        mon.raises(ValueError, lambda: F.msd.MSD(mode="sliding"), "unknown mode")
        mon.raises(Exception, lambda: F.msd.MSD().compute(f32(np.zeros((4, 3)))), "positions without frames")
        mon.raises(Exception, lambda: F.msd.MSD(F.box.Box.cube(3)).compute(f32(np.zeros((4, 2, 3))), images=np.zeros((3, 2, 3), int)), "images of another shape")
        mon.raises(AttributeError, lambda: F.msd.MSD().msd, "msd before compute")

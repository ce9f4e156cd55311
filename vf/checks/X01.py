"""Histories of compute / accumulate / read / failed-compute calls against fresh objects."""
import numpy as np
from vf import fr, geo, zoo
from vf.geo import f32

PHASES = dict(quick=[dict(variant="rel", dirs=zoo.DIRS, cases=14000, cap=110), dict(variant="rel", dirs=zoo.EXTRA_DIRS, full="try", zoo="extra", cases=6000, cap=50)], thorough=[dict(variant="rel", dirs=zoo.DIRS, cases=250000, cap=600), dict(variant="rel", dirs=zoo.EXTRA_DIRS, full="try", zoo="extra", cases=100000, cap=200)])
RULE = ("random histories (3-9 steps of compute with and without reset, single-property and full reads, repeated reads, rejected calls, other systems and sizes in between) on one object of each analysis; after every full "
        "read the results are compared with a fresh object given only the frames that should count, in shuffled order where sizes allow, and accumulated results with sums / means of the single-frame results; "
        "non-trivial = at least two computes on the object; distinct by (analysis, history shape)")
REQUIRED = dict(fresh_comparisons=6000, combined=800, reads=20000, rejected_calls=500, unread_attribute_errors=2000, reordered=300, similar_frames=3000)
ASSUMPTIONS = ["RDF and PMFT averages are normalised by the last frame: histories accumulate frames of equal box and sizes for them (their counts are compared for all)"]


def invalid(e, rng, obj, f):
    """A call that has to be rejected."""
    g = f.copy()
    k = rng.integers(3)
    if e.needs_sys and k == 0:
        e.call(obj, g, system=(f.ob.freud(), np.zeros((4, 2), np.float32)))
    elif g.arrays and k != 1:
        a = sorted(g.arrays)[0]
        g.arrays[a][1] = np.zeros((2, 7, 2, 2), np.float32)
        e.call(obj, g)
    elif e.needs_sys:
        e.call(obj, g, neighbors=dict(r_max=-1.0, nonsense=3))
    else:
        g.arrays[sorted(g.arrays)[0]][1] = np.zeros((2, 7, 2, 2), np.float32)
        e.call(obj, g)


def case(i, rng, mon):
    pool = zoo.pool()
    acc = [e for e in pool if e.accum]
    e = acc[int(rng.integers(len(acc)))] if rng.random() < 0.6 and len(acc) > 1 else pool[i % len(pool)]
    P = e.params(rng)
    obj = e.new(P)
    mon.describe(analysis=e.name, params=P)
    first = None
    dim = 2 if 2 in e.dims and (3 not in e.dims or rng.random() < 0.4) else 3
    if e.name in ("GaussianDensity", "SphereVoxelization") and not isinstance(P["width"], int):
        dim = 3
    frames = []      # since the last reset
    shape = []
    computes = 0
    same_sizes = True
    holder = isinstance(obj, zoo._Holder)

    def expect_unread():
        if holder or e.name in ("FilterSANN", "FilterRAD"):
            return
        for a in e.reads:
            if a == "nlist" or a == "bin_counts" and False:
                pass
            mon.raises(AttributeError, lambda: getattr(obj, a), "%s.%s before compute" % (e.name, a))
            mon.event("unread_attribute_errors")

    expect_unread()
    nsteps = int(rng.integers(3, 10))
    step = 0
    while step < nsteps:
        step += 1
        r = rng.random()
        if r < 0.55 or computes == 0:
            like = first if first is not None and rng.random() < (0.85 if getattr(e, "samesize", False) else 0.4) else None
            reset = None
            if e.accum:
                reset = [None, True, False, False, False][int(rng.integers(5))]
            if "_neq" in P and reset is not False and rng.random() < 0.3:
                P = dict(P, _neq=int(rng.integers(0, 4)))      # has to be constant only while accumulating
            if first is not None and like is None and rng.random() < 0.5:
                f = zoo.relative(rng, e, P, first, dim)
                mon.event("similar_frames")
            else:
                f = e.frame(rng, P, like=like, dim=dim)
            if getattr(e, "samesize", False) and reset is False and frames and not _same(frames[0], f):
                # averages over frames of different sizes are normalised by the last one
                if rng.random() < 0.7:
                    reset = True
            try:
                e.call(obj, f, reset=reset)
            except Exception as ex:
                # rejected for a data-dependent reason: has to be the same for a fresh object
                try:
                    e.call(e.new(P), f, reset=reset)
                except Exception as ex2:
                    mon.check(type(ex) is type(ex2), "rejected with %r, by a fresh object with %r" % (ex, ex2))
                    mon.event("rejected_frames")
                    return
                raise
            if computes == 0 and reset is False:
                shape.append("a")
            if not e.accum or reset is not False:
                frames = []
                shape.append("C")
            else:
                shape.append("A")
            frames.append(f)
            first = f
            computes += 1
        elif r < 0.65:
            raised = False
            try:
                invalid(e, rng, obj, frames[-1])
            except Exception:
                raised = True
                mon.event("rejected_calls")
            shape.append("X")
            if e.accum and raised:
                # what a rejected call does to accumulated data is not promised; the next compute resets
                f = e.frame(rng, P, dim=dim)
                e.call(obj, f, reset=True)
                frames, first = [f], f
                computes += 1
                shape.append("C")
            elif not raised:
                return
        elif r < 0.8:
            a = e.reads[int(rng.integers(len(e.reads)))]
            x = e.read(obj, only=(a,))
            y = e.read(obj, only=(a,))
            mon.event("reads", 2)
            zoo.same(mon, e, y, x, "reading twice", exact=True)
            shape.append("r")
        else:
            full(mon, rng, e, P, obj, frames)
            shape.append("R")
    full(mon, rng, e, P, obj, frames)
    mon.describe(history="".join(shape))
    if computes > 1:
        mon.sig(e.name, "".join(shape)[:5])
    if rng.random() < 0.1:
        expect_unread_fresh = e.new(P)
        if not holder and not e.name.startswith("Filter"):
            mon.raises(AttributeError, lambda: getattr(expect_unread_fresh, e.reads[0]), "a fresh object after others computed")


def _same(f, g):
    return f.ob is g.ob and len(f.p) == len(g.p) and f.nq == g.nq and (f.q is None) == (g.q is None)


def full(mon, rng, e, P, obj, frames):
    got = e.read(obj)
    again = e.read(obj)
    mon.event("reads", 2 * len(e.reads))
    zoo.same(mon, e, again, got, "reading twice", exact=True)
    fresh = e.new(P)
    equal = all(_same(frames[0], g) for g in frames)
    order = np.arange(len(frames))
    skip = ()
    if len(frames) > 1 and (equal or not getattr(e, "samesize", False)) and e.name not in ("MSD",):
        order = rng.permutation(len(frames))
        if order[-1] != len(frames) - 1:
            skip = getattr(e, "lastframe", ())
        mon.event("reordered")
    mon.describe(frames=[dict(box=f.ob.params() if f.ob else None, points=f.p, query=f.q, neighbors=str(f.neighbors)[:200], kw=f.kw) for f in frames], order=order)
    for k in order:
        e.call(fresh, frames[k], reset=False if e.accum else None)
        if rng.random() < 0.2:
            e.read(fresh)
    want = e.read(fresh)
    if e.name == "CorrelationFunction" and got["correlation"].dtype != want["correlation"].dtype:
        got["correlation"], want["correlation"] = got["correlation"].astype(complex), want["correlation"].astype(complex)
    zoo.same(mon, e, got, want, "object with a history against a fresh one (%d frames)" % len(frames), rtol=2e-5, atol=2e-5, skip=skip)
    mon.event("fresh_comparisons")
    if e.accum and len(frames) > 1:
        single = []
        for f in frames:
            o = e.new(P)
            e.call(o, f)
            single.append(e.read(o))
        combine(mon, e, got, single, equal, frames)
        mon.event("combined")


def combine(mon, e, got, single, equal, frames):
    n = len(single)
    if "bin_counts" in got:
        s = sum(x["bin_counts"] for x in single)
        mon.equal(got["bin_counts"], s, "%s: bin_counts add up over %d frames" % (e.name, n))
    mean = None
    if e.name in ("BondOrder", "StaticStructureFactorDebye", "DiffractionPattern"):
        mean = {"BondOrder": "bond_order", "StaticStructureFactorDebye": "S_k", "DiffractionPattern": "diffraction"}[e.name]
    if e.name == "RDF" and equal:
        mean = "rdf"
        m = sum(x["n_r"] for x in single) / n
        mon.close(got["n_r"], m, "RDF: n_r is the mean over frames", rtol=2e-5, atol=1e-5)
    if mean:
        m = sum(x[mean] for x in single) / n
        k = np.isfinite(m)       # (finite-size normalisation of a single point is 0/0)
        sc = np.abs(m[k]).max() if k.any() else 0
        mon.close(got[mean][k], m[k], "%s: %s is the mean over %d frames" % (e.name, mean, n), rtol=2e-5, atol=1e-5 * (sc + 1e-3))
    if e.name == "StaticStructureFactorDebye":
        mon.close(got["min_valid_k"], min(x["min_valid_k"] for x in single), "Debye: min_valid_k is the smallest over frames", rtol=1e-6)
    if e.name.startswith("PMFT") and equal:
        m = sum(np.exp(-x["pmft"]) for x in single) / n
        g = np.exp(-got["pmft"])
        mon.close(g, m, "%s: exp(-pmft) is the mean over %d frames" % (e.name, n), rtol=5e-5, atol=1e-6)
    if e.name == "CorrelationFunction":
        c = [x["bin_counts"] for x in single]
        v = [np.where(ci > 0, x["correlation"], 0) for ci, x in zip(c, single)]
        tot = sum(c)
        m = sum(ci * vi for ci, vi in zip(c, v)) / np.maximum(tot, 1)
        k = tot > 0
        mon.close(got["correlation"][k], m[k], "CorrelationFunction: mean over the bonds of all frames", rtol=2e-5, atol=2e-5)
    if e.name == "MSD":
        mon.close(got["particle_msd"], np.concatenate([x["particle_msd"] for x in single], axis=1), "MSD: particles are appended", rtol=1e-6)
        mon.close(got["msd"], got["particle_msd"].mean(1), "MSD: msd is the mean over particles", rtol=1e-5, atol=1e-6)

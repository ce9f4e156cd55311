"""Boxes: conversions round-trip, and any setter history equals a fresh construction."""
import types, warnings
import numpy as np
from vf import fr, geo
from vf.geo import OBox, f32

PHASES = dict(quick=[dict(variant="rel", dirs=[], cases=8000, cap=60)], thorough=[dict(variant="rel", dirs=[], cases=800000, cap=800)])
RULE = ("random boxes converted to and from every representation, and random histories of 1-12 constructor/setter calls (lengths, tilts, dimensionality, "
        "periodicity) after each of which the box is compared with a freshly constructed one on all attributes and operations; non-trivial = history "
        "changed the geometry or a conversion round-trip was compared; distinct by (sequence of operations) or (representation, box class)")
REQUIRED = dict(setter_calls=2000, roundtrips=2000)

ATTRS = ("Lx", "Ly", "Lz", "xy", "xz", "yz", "is2D", "dimensions", "volume", "periodic_x", "periodic_y", "periodic_z", "cubic")


def same(mon, a, b, rng, what):
    """a behaves exactly like b."""
    for k in ATTRS:
        mon.check(getattr(a, k) == getattr(b, k), "%s: attribute %s is %r, expected %r" % (what, k, getattr(a, k), getattr(b, k)))
    mon.equal(a.periodic, b.periodic, what + ": periodic")
    mon.equal(a.L, b.L, what + ": L")
    mon.equal(a.L_inv, b.L_inv, what + ": L_inv")
    mon.equal(a.to_matrix(), b.to_matrix(), what + ": to_matrix")
    mon.check(a == b and not (a != b) and b == a, what + ": ==")
    mon.check(repr(a) == repr(b) and str(a) == str(b), what + ": repr")
    mon.check(a.to_dict() == b.to_dict() and a.to_box_params() == b.to_box_params(), what + ": to_dict / to_box_params")
    mon.equal(a.to_box_lengths_and_angles(), b.to_box_lengths_and_angles(), what + ": to_box_lengths_and_angles")
    x = f32(rng.normal(size=(7, 3)) * 3 * (np.abs(b.L).max() + 1))
    if b.is2D:
        x[:, 2] = 0
    f = f32(rng.uniform(-1, 2, size=(7, 3)))
    im = rng.integers(-3, 4, size=(7, 3)).astype(np.int32)
    for name, args in (("wrap", (x,)), ("make_fractional", (x,)), ("make_absolute", (f,)), ("get_images", (x,)), ("unwrap", (x, im)),
                       ("contains", (x / 6,)), ("compute_distances", (x, x[::-1])), ("compute_all_distances", (x, x[:3])),
                       ("center_of_mass", (x,)), ("center", (x,))):
        mon.equal(np.nan_to_num(getattr(a, name)(*args)), np.nan_to_num(getattr(b, name)(*args)), "%s: %s" % (what, name))
    for k in range(b.dimensions):
        mon.equal(a.get_box_vector(k), b.get_box_vector(k), what + ": box vectors")


def mk(st):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        b = fr.freud.box.Box(*[float(v) for v in st["L"]], *[float(v) for v in st["t"]], is2D=st["d"] == 2)
    b.periodic = [bool(p) for p in st["p"]]
    return b


def history(i, rng, mon):
    ob = geo.random_box(rng, periodic="random", lo=0.3, hi=40)
    st = dict(L=list(ob.L), t=[ob.xy, ob.xz, ob.yz], d=ob.d, p=[True] * 3)
    box = OBox(*ob.L, ob.xy, ob.xz, ob.yz, is2D=ob.is2D).freud()
    ops = []
    mon.describe(start=ob.params(), ops=ops)
    ln = lambda: float(np.float32(np.exp(rng.uniform(-1, 4))))
    for k in range(int(rng.integers(1, 13))):
        op = ("L", "Lscalar", "Lx", "Ly", "Lz", "xy", "xz", "yz", "dim", "periodic", "periodic1", "px", "py", "pz")[int(rng.integers(14))]
        if op == "L":
            v = [ln(), ln(), ln()]
            box.L = v if rng.random() < 0.5 else np.array(v)
            st["L"] = v
        elif op == "Lscalar":
            v = ln()
            box.L = v
            st["L"] = [v] * 3
        elif op in ("Lx", "Ly", "Lz"):
            v = ln()
            setattr(box, op, v)
            st["L"][("Lx", "Ly", "Lz").index(op)] = v
        elif op in ("xy", "xz", "yz"):
            v = float(np.float32(rng.uniform(-1.5, 1.5)))
            setattr(box, op, v)
            st["t"][("xy", "xz", "yz").index(op)] = v
        elif op == "dim":
            v = int(rng.integers(2, 4))
            box.dimensions = v
            if v == 2:
                st["L"][2] = 0.0
            st["d"] = v
            if v == 3 and st["L"][2] == 0 and rng.random() < 0.7:
                w = ln()
                box.Lz = w
                st["L"][2] = w
        elif op == "periodic":
            v = [bool(x) for x in rng.random(3) < 0.5]
            box.periodic = v if rng.random() < 0.5 else tuple(v)
            st["p"] = v
        elif op == "periodic1":
            v = bool(rng.random() < 0.5)
            box.periodic = v
            st["p"] = [v] * 3
        else:
            v = bool(rng.random() < 0.5)
            j = ("px", "py", "pz").index(op)
            setattr(box, "periodic_" + "xyz"[j], v)
            st["p"][j] = v
        if st["d"] == 2:
            st["L"][2] = 0.0
        ops.append((op, v))
        mon.event("setter_calls")
        if st["d"] == 3 and st["L"][2] == 0:
            continue        # not a valid box until a z length is assigned
        same(mon, box, mk(st), rng, "after setters")
    mon.sig(*[o for o, _ in ops[:5]])


def conversions(i, rng, mon):
    Box = fr.freud.box.Box
    ob = geo.random_box(rng, periodic="random", lo=0.3, hi=40, maxtilt=1.2)
    box = ob.freud()
    mon.describe(box=ob.params())
    full = OBox(*ob.L, ob.xy, ob.xz, ob.yz, is2D=ob.is2D).freud()
    p6 = [*[float(v) for v in ob.L], ob.xy, ob.xz, ob.yz]
    d = box.to_dict()
    mon.check(d == dict(Lx=p6[0], Ly=p6[1], Lz=p6[2], xy=p6[3], xz=p6[4], yz=p6[5], dimensions=ob.d), "to_dict", got=d)
    mon.equal(box.to_box_params(), p6, "to_box_params")
    same(mon, Box.from_box(d), full, rng, "from_box(to_dict)")
    same(mon, Box.from_box(box), box, rng, "from_box(Box)")
    same(mon, Box.from_box(box, dimensions=ob.d), box, rng, "from_box(Box, dimensions)")
    same(mon, Box.from_box(list(box.to_box_params())), full, rng, "from_box(list of 6)")
    same(mon, Box.from_box(np.array(box.to_box_params())), full, rng, "from_box(array of 6)")
    same(mon, Box.from_box(tuple(p6), dimensions=ob.d), full, rng, "from_box(tuple, dimensions)")
    ns = types.SimpleNamespace(**d)
    same(mon, Box.from_box(ns), full, rng, "from_box(object with attributes)")
    ns2 = types.SimpleNamespace(**{k: v for k, v in d.items() if k != "dimensions"})
    same(mon, Box.from_box(ns2), full, rng, "from_box(object without dimensions)")
    same(mon, eval(repr(box), {"freud": fr.freud}), full, rng, "eval(repr)")
    o3 = Box.from_box(p6[:3] if not ob.is2D else p6[:2])
    same(mon, o3, OBox(*ob.L, is2D=ob.is2D).freud(), rng, "from_box(lengths only)")
    dd = {k: d[k] for k in (("Lx", "Ly") if ob.is2D else ("Lx", "Ly", "Lz"))}
    same(mon, Box.from_box(dd), OBox(*ob.L, is2D=ob.is2D).freud(), rng, "from_box(dict of lengths)")
    # a 2D reading of a 3D representation
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        b2 = Box.from_box(p6, dimensions=2)
    mon.check(b2.is2D and b2.Lz == 0 and b2.dimensions == 2 and b2.volume == OBox(p6[0], p6[1]).freud().volume, "from_box(dimensions=2)")
    if ob.is2D:     # a box without z length is two-dimensional whatever its z tilts
        t = [float(np.float32(x)) for x in rng.uniform(-1, 1, 2)]
        z6 = p6[:2] + [0.0, p6[3]] + t
        keys = ("Lx", "Ly", "Lz", "xy", "xz", "yz")
        for what, b in (("list", z6), ("array", np.array(z6)), ("dict", dict(zip(keys, z6))), ("dict without Lz", {k: v for k, v in zip(keys, z6) if k != "Lz"}),
                        ("object", types.SimpleNamespace(**dict(zip(keys, z6)))), ("object without Lz", types.SimpleNamespace(**{k: v for k, v in zip(keys, z6) if k != "Lz"}))):
            b = Box.from_box(b)
            mon.check(b.is2D and b.dimensions == 2, "%s with z tilts and no z length is 2D" % what)
            mon.equal(b.to_box_params(), z6, "%s with z tilts and no z length" % what)
        b = Box(*z6)
        mon.check(b.is2D, "Box without z length is 2D")
        mon.equal(b.to_box_params(), z6, "Box without z length")
    other = 5 - ob.d
    mon.raises(ValueError, lambda: Box.from_box(box, dimensions=other), "conflicting dimensions (Box)")
    mon.raises(ValueError, lambda: Box.from_box(d, dimensions=other), "conflicting dimensions (dict)")
    for n in (0, 1, 4, 5, 7):
        mon.raises(Exception, lambda: Box.from_box([2.0] * n), "list of %d numbers" % n)
    # matrix and lengths/angles (recomputed, so equal up to rounding)
    for what, b in (("from_matrix", Box.from_matrix(box.to_matrix())), ("from_box(matrix)", Box.from_box(box.to_matrix())),
                    ("from_matrix(dimensions)", Box.from_matrix(box.to_matrix().tolist(), dimensions=ob.d)),
                    ("from_box_lengths_and_angles", Box.from_box_lengths_and_angles(*box.to_box_lengths_and_angles())),
                    ("from_box_lengths_and_angles(dimensions)", Box.from_box_lengths_and_angles(*box.to_box_lengths_and_angles(), dimensions=ob.d))):
        mon.check(b.dimensions == ob.d, what + ": dimensions")
        mon.close(b.to_matrix(), ob.M, what, atol=3e-5 * ob.L.max(), rtol=3e-5)
        mon.check(bool(b.periodic.all()), what + ": periodic by default")
    l1, l2, l3, al, be, ga = box.to_box_lengths_and_angles()
    v = ob.M.T.copy()
    ln = [np.linalg.norm(u) for u in v]
    mon.close([l1, l2, l3], ln, "box vector lengths", rtol=1e-5)
    e3 = v[2] if not ob.is2D else np.array([ob.xz, ob.yz, 1.0])
    ang = lambda a, b: np.arccos(np.clip(a @ b / np.linalg.norm(a) / np.linalg.norm(b), -1, 1))
    mon.close([al, be, ga], [ang(v[1], e3), ang(v[0], e3), ang(v[0], v[1])], "box angles", atol=2e-5)
    # rotated matrices describe the same box
    if not ob.is2D:
        q = geo.random_quats(rng, 1, special=False)[0].astype(float)
        q /= np.linalg.norm(q)
        R = np.stack([geo.qrot(q, e) for e in np.eye(3)], axis=1)
        mon.close(Box.from_matrix(R @ ob.M).to_matrix(), ob.M, "from_matrix of a rotated matrix", atol=2e-4 * np.abs(ob.M).max(), rtol=2e-4)
    # scaling
    s = float(np.exp(rng.uniform(-2, 2)))
    if rng.random() < 0.3:
        s = int(rng.integers(1, 6))
    for b in (box * s, s * box):
        mon.close(b.L, ob.L * s, "scaled lengths", atol=0, rtol=1e-6)
        mon.equal([b.xy, b.xz, b.yz], [ob.xy, ob.xz, ob.yz], "scaling keeps tilt factors")
        mon.equal(b.periodic, ob.periodic, "scaling keeps periodicity")
        mon.check(b.dimensions == ob.d, "scaling keeps dimensions")
    mon.raises(ValueError, lambda: box * -1.0, "negative scale")
    mon.raises(ValueError, lambda: box * 0, "zero scale")
    same(mon, box, ob.freud(), rng, "conversions leave the box alone")
    # equality distinguishes every parameter
    k = int(rng.integers(10))
    st = dict(L=list(ob.L), t=[ob.xy, ob.xz, ob.yz], d=ob.d, p=list(ob.periodic))
    bump = lambda x: float(np.nextafter(np.float32(x), np.float32(1e9)))
    if k < 3:
        if not (ob.is2D and k == 2):
            st["L"][k] = bump(st["L"][k])
            mon.check(not (mk(st) == box) and mk(st) != box, "boxes of different lengths compare equal")
    elif k < 6:
        st["t"][k - 3] = bump(st["t"][k - 3])
        mon.check(not (mk(st) == box), "boxes of different tilts compare equal")
    elif k < 9:
        st["p"][k - 6] = not st["p"][k - 6]
        mon.check(not (mk(st) == box), "boxes of different periodicity compare equal")
    else:
        mon.check(not (box == "box") and not (box == p6), "box equal to something else")
    # cube / square
    L = float(np.float32(rng.uniform(0.5, 30)))
    same(mon, Box.cube(L), OBox(L, L, L).freud(), rng, "cube")
    same(mon, Box.square(L), OBox(L, L).freud(), rng, "square")
    mon.check(Box.cube(L).cubic and not Box.square(L).cubic, "cubic")
    if not ob.is2D and (abs(ob.xy) > 1e-3 or abs(ob.xz) > 1e-3 or abs(ob.yz) > 1e-3 or np.ptp(ob.L) > 1e-2):
        mon.check(not box.cubic, "cubic")
    # the extension module's own round trip (results report the box they were computed in)
    bb = fr.freud.box.BoxFromCPP(box._cpp_obj)
    same(mon, bb, box, rng, "box reported by a result")
    mon.event("roundtrips")
    mon.sig("conv", ob.key(), k)


def case(i, rng, mon):
    (history if i % 2 else conversions)(i, rng, mon)

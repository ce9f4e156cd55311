BUGS = []
def bug(id, property, edits, needs, breaks, demo, checks=None):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, checks=checks or [property]))

bug("r01-xyz-shift", "R01", [("freud/pmft.py", "            np.sqrt(x_max**2 + y_max**2 + z_max**2)", "            np.sqrt(max(x_max, y_max) ** 2 + z_max**2)")] if False else [("freud/density.py", 'return dict(mode="ball", r_max=self.r_max + 0.5 * self.diameter)', 'return dict(mode="ball", r_max=max(self.r_max, self.r_max + 0.5 * self.diameter - 1e-3))')],
"a LocalDensity computed without neighbors in a system with a particle within 0.001 of r_max + diameter / 2", "the default neighbor query is not the documented one",
"""
import freud
d = freud.density.LocalDensity(2.0, 1.0)
assert abs(d.default_query_args["r_max"] - 2.5) < 1e-6, d.default_query_args
""")

bug("r01-bin-centers", "R01", [("freud/util/Histogram.h", "            bin_centers[i] = (m_bin_edges[i] + m_bin_edges[i + 1]) / static_cast<float>(2.0);", "            bin_centers[i] = m_bin_edges[0] + (static_cast<float>(i) + static_cast<float>(0.5)) * (m_bin_edges[1] - m_bin_edges[0]);")],
"none: rounding only", "", "", ["R01"])
BUGS.pop()

bug("r01-lind", "R01", [("freud/util/Histogram.h", "            m_bin_edges[i] = min + static_cast<float>(i) * m_bin_width;", "            m_bin_edges[i] = (i == 0) ? min : m_bin_edges[i - 1] + m_bin_width;")],
"histograms of very many bins (the rounding of the bin width adds up)", "reported bin edges drift away from the bins that are counted",
"""
import numpy as np, freud
r = freud.density.RDF(3000, 3.0)
assert np.abs(r.bin_edges - np.linspace(0, 3, 3001)).max() < 3e-6, np.abs(r.bin_edges - np.linspace(0, 3, 3001)).max()
""")

bug("x07-gsd-tilt", "X07", [("freud/locality.py", "                box[[2, 4, 5]] = 0\n", "                box[2:] = 0\n")],
"a two-dimensional gsd frame with a tilted box", "the tilt of 2D gsd frames is lost",
"""
import numpy as np, freud, gsd.hoomd
f = gsd.hoomd.Frame(); f.configuration.box = [4, 5, 1, 0.5, 0, 0]; f.configuration.dimensions = 2
f.particles.N = 1; f.particles.position = np.zeros((1, 3), np.float32)
b = freud.locality.NeighborQuery.from_system(f).box
assert b.is2D and abs(b.xy - 0.5) < 1e-6, b
""")

bug("x07-ovito-2d", "X07", [("freud/locality.py", "                system.cell.matrix[:, :3], dimensions=2 if system.cell.is2D else 3\n", "                system.cell.matrix[:, :3]\n")],
"a two-dimensional OVITO system, whose cell matrix has a thickness", "it becomes three-dimensional",
"""
import types, numpy as np, freud
D = type("DataCollection", (), {"__module__": "ovito.data"})
d = D(); d.cell = types.SimpleNamespace(matrix=np.array([[4., 1, 0, 0], [0, 5, 0, 0], [0, 0, 1, 0]]), is2D=True)
d.particles = types.SimpleNamespace(positions=np.zeros((2, 3)))
assert freud.locality.NeighborQuery.from_system(d).box.is2D
""")

bug("x07-dict-2d", "X07", [("freud/box.py", '                    dimensions = box.get("dimensions", None)\n', '                    dimensions = 3 if Lz else None\n')],
"a box given as a dict with dimensions=2 and a nonzero Lz", "the box becomes three-dimensional",
"""
import freud
b = freud.box.Box.from_box(dict(Lx=4, Ly=5, Lz=1, dimensions=2))
assert b.is2D, b
""", ["X07", "B02"])

bug("x07-hoomd-2d-xy", "X07", [("freud/locality.py", "                box = freud.Box(system.box.Lx, system.box.Ly, xy=system.box.xy)\n", "                box = freud.Box.square(system.box.Lx) if system.box.Lx == system.box.Ly else freud.Box(system.box.Lx, system.box.Ly, xy=system.box.xy)\n")],
"a tilted 2D HOOMD 2 snapshot with equal lengths", "the tilt is lost",
"""
import types, numpy as np, freud
s = types.SimpleNamespace(box=types.SimpleNamespace(Lx=4, Ly=4, Lz=1, xy=.5, xz=0, yz=0, dimensions=2), particles=types.SimpleNamespace(position=np.zeros((2, 3))))
assert abs(freud.locality.NeighborQuery.from_system(s).box.xy - .5) < 1e-6
""")

bug("x08-box-edge", "X08", [("freud/plot.py", "            corners[[4, 5, 7, 6, 4]],", "            corners[[4, 5, 6, 7, 4]],")],
"plots of 3D boxes", "diagonals are drawn instead of edges",
"""
import matplotlib; matplotlib.use("Agg")
import numpy as np, freud, freud.plot
ax = freud.box.Box.cube(2).plot()
for l in ax.lines:
    d = np.diff(np.array(l.get_data_3d()), axis=1)
    assert np.allclose(np.linalg.norm(d, axis=0), 2), d
""")

bug("x08-clusters-order", "X08", [("freud/plot.py", "((freq, key) for key, freq in zip(keys, freqs)), key=lambda x: -x[0]", "((freq, key) for key, freq in zip(keys[:-1] if len(keys) > 10 else keys, freqs)), key=lambda x: -x[0]")],
"plots of more than ten clusters of which the one with the largest key is among the largest ten", "a cluster is missing",
"""
import matplotlib; matplotlib.use("Agg")
import freud, freud.plot
ax = freud.plot.clusters_plot(list(range(12)), [1] * 11 + [5])
assert ax.patches[0].get_height() == 5
""")

bug("x08-density-flip", "X08", [("freud/plot.py", "        np.flipud(density.T), extent=[xlims[0], xlims[1], ylims[0], ylims[1]]", "        np.fliplr(np.rot90(density, 1 if density.shape[0] != density.shape[1] else 3)), extent=[xlims[0], xlims[1], ylims[0], ylims[1]]")],
"plots of 2D densities", "the picture is mirrored",
"""
import matplotlib; matplotlib.use("Agg")
import numpy as np, freud, freud.plot
g = freud.density.GaussianDensity((20, 20), 2, 0.5).compute((freud.box.Box.square(10), [[3.25, 1.25, 0]]))
im = g.plot().images[0]; a = np.asarray(im.get_array())
r, c = np.unravel_index(a.argmax(), a.shape)
assert (c, r) == (16, 7), (c, r)
""")

bug("x08-debye-mask", "X08", [("freud/diffraction.py", "            self.S_k[self.k_values > self.min_valid_k],\n", "            self.S_k[-np.count_nonzero(self.k_values > self.min_valid_k) :],\n")],
"a plot of a Debye structure factor without any valid k value", "raises", """
import matplotlib; matplotlib.use("Agg")
import numpy as np, freud, freud.plot
s = freud.diffraction.StaticStructureFactorDebye(5, 0.1).compute((freud.box.Box.cube(5), np.zeros((2, 3))))
s.plot()
""")

bug("x08-system-points", "X08", [("freud/plot.py", "        sc = ax.scatter(system.points[:, 0], system.points[:, 1], *args, **kwargs)", "        pts = system.box.wrap(system.points)\n        sc = ax.scatter(pts[:, 0], pts[:, 1], *args, **kwargs)")],
"2D systems with points outside the box", "points are drawn in another image",
"""
import matplotlib; matplotlib.use("Agg")
import numpy as np, freud, freud.plot
ax, sc = freud.locality.AABBQuery(freud.box.Box.square(4), [[3, 0, 0]]).plot()
assert np.allclose(sc.get_offsets(), [[3, 0]]), sc.get_offsets()
""")

bug("x08-vmax", "X08", [("freud/diffraction.py", "            vmax = 0.7 * self.N_points\n        return freud.plot.diffraction_plot(", "            vmax = 0.7\n        return freud.plot.diffraction_plot(")],
"plots of diffraction patterns of more than one point", "the colour scale is not the documented one", """
import matplotlib; matplotlib.use("Agg")
import numpy as np, freud, freud.plot
d = freud.diffraction.DiffractionPattern(32).compute((freud.box.Box.cube(5), np.random.default_rng(0).random((10, 3))))
assert abs(d.plot().images[0].norm.vmax - 7) < 1e-6
""")

bug("r01-late-pmft", "R01", [("freud/pmft.py", 'super().__init__()\n', 'super().__init__()\n')], "", "", "")
BUGS.pop()

bug("r01-stale-box", "R01", [("freud/density/LocalDensity.cc", "    m_box = neighbor_query->getBox();\n", "    if (m_box.getVolume() != neighbor_query->getBox().getVolume())\n    {\n        m_box = neighbor_query->getBox();\n    }\n")],
"a second system whose box has the same volume as the first but another shape", "the reported box is that of the first system",
"""
import numpy as np, freud
d = freud.density.LocalDensity(1.0, 0.5)
d.compute((freud.box.Box(4, 4, 4), np.zeros((2, 3)))); d.compute((freud.box.Box(2, 4, 8), np.zeros((2, 3))), neighbors=dict(mode="nearest", num_neighbors=1))
assert d.box == freud.box.Box(2, 4, 8), d.box
""")

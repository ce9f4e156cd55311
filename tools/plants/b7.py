BUGS = []
def bug(id, property, edits, needs, breaks, demo, checks=None):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, checks=checks or [property]))

bug("b01-only-z", "B01", [("freud/box/Box.h", "        if (!m_periodic.x && !m_periodic.y && !m_periodic.z)", "        if (!m_periodic.x && !m_periodic.y)")],
"a box that is periodic along z only", "nothing is wrapped",
"""
import numpy as np, freud
b = freud.box.Box.cube(4); b.periodic = [False, False, True]
assert np.allclose(b.wrap([5, 0, 3]), [5, 0, -1]), b.wrap([5, 0, 3])
""")

bug("s02-abs-weights", "S02", [("freud/diffraction.py", "            weights = weights * len(weights) / np.sum(weights)", "            weights = weights * len(weights) / np.sum(np.abs(weights))")],
"scattering lengths of both signs", "the pattern is not normalised to S(0) = N",
"""
import numpy as np, freud
r = np.random.default_rng(0); b = freud.box.Box.cube(8)
p = r.uniform(-4, 4, (50, 3)); w = np.where(np.arange(50) % 4 == 0, -.5, 1.)
d = freud.diffraction.DiffractionPattern(65, 65).compute((b, p), zoom=1, peak_width=.01, weights=w)
assert abs(d.diffraction[32, 32] - 50) < 2, d.diffraction[32, 32]
""")

bug("d02-query-complex", "D02", [("freud/density.py", "            or np.any(np.iscomplex(query_values))\n", "            or (query_values is not None and len(query_values) == len(values) and np.any(np.iscomplex(query_values)))\n")],
"real values and complex query values of another number", "the imaginary part is dropped",
"""
import numpy as np, freud
r = np.random.default_rng(0); b = freud.box.Box.cube(8)
p, q = r.uniform(-4, 4, (50, 3)), r.uniform(-4, 4, (30, 3))
c = freud.density.CorrelationFunction(4, 3).compute((b, p), np.ones(50), q, 1j * np.ones(30))
assert np.abs(np.imag(c.correlation)).max() > .9, c.correlation
""")

bug("n03-copy-sizes", "N03", [("freud/locality/NeighborList.cc", "    m_num_query_points = other.m_num_query_points;\n    m_num_points = other.m_num_points;\n    m_segments_counts_updated = other.m_segments_counts_updated;", "    m_num_query_points = other.m_num_query_points;\n    m_num_points = std::max(other.m_num_points, other.m_num_query_points);\n    m_segments_counts_updated = other.m_segments_counts_updated;")],
"a copy of a list with fewer points than query points", "the copy reports another number of points",
"""
import numpy as np, freud
nl = freud.locality.NeighborList.from_arrays(5, 3, [0, 4], [1, 2], np.ones((2, 3)))
assert nl.copy().num_points == 3, nl.copy().num_points
""")

bug("n01-shell-fine", "N01", [("freud/locality/LinkCell.cc", "        --m_current_x;\n        wrapped = m_current_x <= -m_range;\n        m_current_x += 2 * static_cast<int>(wrapped) * m_range;\n        if (!m_is2D)\n        {\n            m_current_z += static_cast<int>(wrapped);\n            wrapped = m_current_z >= m_range;", "        --m_current_x;\n        wrapped = m_current_x <= -m_range;\n        m_current_x += 2 * static_cast<int>(wrapped) * m_range;\n        if (!m_is2D)\n        {\n            m_current_z += static_cast<int>(wrapped);\n            wrapped = m_current_z >= m_range - static_cast<int>(m_range > 3);")],
"cells so fine that the cutoff spans more than three of them", "cells of a far shell are not visited",
"""
import numpy as np, freud
r = np.random.default_rng(0); b = freud.box.Box.cube(20)
p = r.uniform(-10, 10, (3000, 3)).astype(np.float32)
a = freud.locality.LinkCell(b, p, cell_width=1.).query(p[:100], dict(r_max=6)).toNeighborList()
c = freud.locality.AABBQuery(b, p).query(p[:100], dict(r_max=6)).toNeighborList()
assert len(a) == len(c), (len(a), len(c))
""")

bug("b02-rotated-matrix", "B02", [("freud/box.py", "        Lz = np.dot(v2, v0xv1) / v0xv1mag", "        Lz = box_matrix[2, 2] if v0xv1mag else 0")],
"a matrix whose lattice vectors are not in the standard orientation", "the height of the box is wrong",
"""
import numpy as np, freud
c, s = np.cos(.5), np.sin(.5)
R = np.array([[1, 0, 0], [0, c, -s], [0, s, c]])
b = freud.box.Box.from_matrix(R @ np.diag([2., 3., 4.]))
assert np.allclose(b.L, [2, 3, 4], rtol=1e-4), b
""")

bug("b02-angles-yz", "B02", [("freud/box.py", "        alpha = np.arccos(\n            (self.xy * self.xz + self.yz)\n", "        alpha = np.arccos(\n            (self.xy * self.xz + abs(self.yz))\n")],
"a box with negative tilt yz", "the angle between the second and third lattice vector is the supplement",
"""
import numpy as np, freud
b = freud.box.Box(3, 4, 5, .2, .1, -.6)
M = b.to_matrix(); a, c = M[:, 1], M[:, 2]
ref = np.arccos(a @ c / np.linalg.norm(a) / np.linalg.norm(c))
assert abs(b.to_box_lengths_and_angles()[3] - ref) < 1e-4
""")

bug("p01-query-angle", "P01", [("freud/pmft.py", "        if query_orientations is None:\n            query_orientations = orientations\n        query_orientations = _gen_angle_array(\n            query_orientations, shape=(query_points.shape[0],)\n        )\n\n        self._cpp_obj.accumulate(\n            nq._cpp_obj,\n            orientations,\n            query_points,\n            query_orientations,\n            nlist._cpp_obj,\n            qargs._cpp_obj,\n        )\n        return self\n\n    def __repr__(self):\n        return (\"freud.pmft.{cls}(r_max={r_max}, bins=({bins}))\").format(", "        if query_orientations is None or len(query_orientations) == len(orientations):\n            query_orientations = orientations\n        query_orientations = _gen_angle_array(\n            query_orientations, shape=(query_points.shape[0],)\n        )\n\n        self._cpp_obj.accumulate(\n            nq._cpp_obj,\n            orientations,\n            query_points,\n            query_orientations,\n            nlist._cpp_obj,\n            qargs._cpp_obj,\n        )\n        return self\n\n    def __repr__(self):\n        return (\"freud.pmft.{cls}(r_max={r_max}, bins=({bins}))\").format(")],
"PMFTR12 with as many query points as points and other orientations for them", "the orientations of the points are used for the query points",
"""
import numpy as np, freud
b = freud.box.Box.square(10); p = np.array([[0., 0, 0]]); q = np.array([[1., 0, 0]])
x = freud.pmft.PMFTR12(2, (1, 4, 4)).compute((b, p), [0.], q, [2.], neighbors=dict(r_max=2)).bin_counts
y = freud.pmft.PMFTR12(2, (1, 4, 4)).compute((b, p), [0.], q, [0.], neighbors=dict(r_max=2)).bin_counts
assert not np.array_equal(x, y)
""")

bug("c02-many", "C02", [("freud/cluster/ClusterProperties.cc", "    for (unsigned int c = 0; c < num_clusters; c++)\n    {\n        auto s", "    for (unsigned int c = 0; c < std::min(num_clusters, 1000U); c++)\n    {\n        auto s")],
"more than a thousand clusters", "the gyration tensors of later clusters are not normalised",
"""
import numpy as np, freud
n = 1200; b = freud.box.Box.cube(10)
p = np.repeat(np.random.default_rng(0).uniform(-4, 4, (n, 3)), 2, 0); p[::2, 0] += .5
c = freud.cluster.ClusterProperties().compute((b, p), np.repeat(np.arange(n), 2))
assert np.allclose(c.gyrations[:, 0, 0], .0625, atol=1e-3)
""")

bug("s01-validk-reset", "S01", [("freud/diffraction/StaticStructureFactorDebye.cc", "    m_min_valid_k = std::min(m_min_valid_k, 2 * freud::constants::TWO_PI / min_box_length);", "    m_min_valid_k = m_frame_counter > 1 ? m_min_valid_k : std::min(m_min_valid_k, 2 * freud::constants::TWO_PI / min_box_length);")],
"a box that grows after the second accumulated frame", "min_valid_k keeps the value of the earlier boxes",
"""
import numpy as np, freud
s = freud.diffraction.StaticStructureFactorDebye(5, 5)
for L in (5, 6, 10):
    s.compute((freud.box.Box.cube(L), np.random.default_rng(0).uniform(-2, 2, (5, 3))), reset=False)
assert abs(s.min_valid_k - 4 * np.pi / 10) < 1e-4, s.min_valid_k
""")

bug("d03-big-n", "N03", [("freud/locality/NeighborList.cc", "                    if (last_index != INDEX_TERMINATOR)\n                    {\n                        (*m_counts)[last_index] = counter;", "                    if (last_index != INDEX_TERMINATOR)\n                    {\n                        (*m_counts)[last_index] = static_cast<unsigned short>(counter);")],
"a query point with more than 65535 bonds that is not the last", "its neighbor count is taken modulo 65536",
"""
import numpy as np, freud
n = 66000
nl = freud.locality.NeighborList.from_arrays(2, n, np.r_[np.zeros(n, int), 1], np.r_[np.arange(n), 0], np.ones((n + 1, 3)))
assert nl.neighbor_counts[0] == n, nl.neighbor_counts
""")
for b in BUGS:
    if b["id"] == "d03-big-n": b["id"] = "n03-count-16"

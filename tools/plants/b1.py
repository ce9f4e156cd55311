BUGS = []
def bug(id, property, edits, needs, breaks, demo, checks=None):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, checks=checks or [property]))

bug("c01-half-bonds", "C01", [("freud/cluster/Cluster.cc",
"""            if (!dj.same(neighbor_bond.getPointIdx(), neighbor_bond.getQueryPointIdx()))
""",
"""            // Every bond is seen from both sides, so only one of them has to be merged
            if (neighbor_bond.getPointIdx() > neighbor_bond.getQueryPointIdx()
                && !dj.same(neighbor_bond.getPointIdx(), neighbor_bond.getQueryPointIdx()))
""")],
"a bond that appears only from the side of the larger index (asymmetric neighbor lists, k-nearest queries)",
"connected points are reported in different clusters",
"""
import numpy as np, freud
box = freud.box.Box.cube(10)
pts = np.array([[0, 0, 0], [1, 0, 0], [-3, 2, 1]], dtype=np.float32)
nl = freud.locality.NeighborList.from_arrays(3, 3, [1], [0], [[-1, 0, 0]])
cl = freud.cluster.Cluster().compute((box, pts), neighbors=nl)
print(cl.cluster_idx)
assert cl.num_clusters == 2 and list(cl.cluster_idx) == [0, 0, 1]
""")

bug("n01-linkcell-tilt", "N01", [("freud/locality/LinkCell.cc",
"""    vec3<float> const L = box.getNearestPlaneDistance();
    dim.x""", """    vec3<float> const L = box.getL();
    dim.x""")],
"LinkCell in a strongly tilted box with an r_max comparable to the cell width",
"LinkCell uses cells thinner than cell_width and misses neighbors",
"""
import numpy as np, freud
rng = np.random.default_rng(3)
box = freud.box.Box(12, 12, 12, 1.9, 0.3, -1.7)
pts = box.make_absolute(rng.random((400, 3))).astype(np.float32)
args = dict(mode="ball", r_max=1.0, exclude_ii=True)
def pairs(q): return set(map(tuple, np.asarray(q.query(pts, args).toNeighborList()[:])))
a = pairs(freud.locality.LinkCell(box, pts, cell_width=1.0)); b = pairs(freud.locality.AABBQuery(box, pts))
d = box.compute_all_distances(pts, pts); 
print(len(a), len(b))
assert a == b
""")

bug("n01-shell-width", "N01", [("freud/locality/LinkCell.h",
"        if (m_r_max == neighbor_query->getCellWidth())", "        if (m_r_max >= neighbor_query->getCellWidth())")],
"LinkCell ball query with r_max larger than the cell width and not a multiple of it",
"the outermost shell of cells is not searched",
"""
import numpy as np, freud
rng = np.random.default_rng(3)
box = freud.box.Box.cube(12)
pts = box.make_absolute(rng.random((600, 3))).astype(np.float32)
args = dict(mode="ball", r_max=1.7, exclude_ii=True)
def pairs(q): return set(map(tuple, np.asarray(q.query(pts, args).toNeighborList()[:])))
a = pairs(freud.locality.LinkCell(box, pts, cell_width=1.0)); b = pairs(freud.locality.AABBQuery(box, pts))
print(len(a), len(b))
assert a == b
""")

bug("n02-rmin-count", "N02", [("freud/locality/AABBQuery.cc",
"""                || ((m_all_bonds_minimum_distance.size() - m_query_points_below_r_min.size())
                    >= m_num_neighbors))""",
"""                || (m_all_bonds_minimum_distance.size() >= m_num_neighbors))""")],
"k-nearest query with r_min, where the search has to go beyond half the box and points below r_min were found",
"fewer than k neighbors are returned although more exist",
"""
import numpy as np, freud
rng = np.random.default_rng(0)
bad = 0
for s in range(200):
    box = freud.box.Box.cube(10)
    pts = (rng.random((8, 3)) * 10 - 5).astype(np.float32)
    r_min = 3.0
    nl = freud.locality.AABBQuery(box, pts).query(pts, dict(mode="nearest", num_neighbors=3, r_min=r_min, exclude_ii=True)).toNeighborList()
    D = box.compute_all_distances(pts, pts).astype(float)
    for i in range(8):
        cand = [D[i, j] for j in range(8) if j != i and D[i, j] >= r_min]
        # only sure neighbors: distance below half the box are certainly minimum images
        want = sorted(cand)[:3]
        if len(want) == 3 and want[-1] < 4.9:
            got = sorted(nl.distances[nl.query_point_indices == i])
            bad += len(got) != 3 or not np.allclose(got, want, atol=1e-4)
print(bad)
assert bad == 0
""")

bug("n03-filter-stale", "N03", [("freud/locality/NeighborList.cc",
"""    m_vectors = new_vectors;
    m_segments_counts_updated = false;
    return old_size - new_size;""",
"""    m_vectors = new_vectors;
    // Segments and counts are still valid if nothing was removed
    m_segments_counts_updated = (new_size == old_size);
    return old_size - new_size;""")],
"a filter that removes nothing before segments or neighbor_counts were read for the first time",
"segments and neighbor_counts are zero or stale",
"""
import numpy as np, freud
nl = freud.locality.NeighborList.from_arrays(3, 3, [0, 0, 1, 2], [1, 2, 0, 1], np.ones((4, 3)))
nl.filter(np.ones(4, dtype=bool))
print(nl.neighbor_counts, nl.segments)
assert list(nl.neighbor_counts) == [2, 1, 1] and list(nl.segments) == [0, 2, 3]
""")

bug("n03-first-index", "N03", [("freud/locality/NeighborList.cc",
"        return bisection_search(i, 0, getNumBonds()) + (i > (*m_neighbors)(0, 0) ? 1 : 0);",
"        return bisection_search(i, 0, getNumBonds()) + (i > 0 ? 1 : 0);")],
"a neighbor list whose first query points have no neighbors",
"the first bond of the first query point with neighbors is skipped by everything that iterates over the list",
"""
import numpy as np, freud
nl = freud.locality.NeighborList.from_arrays(4, 4, [2, 2, 3], [0, 1, 1], np.ones((3, 3)))
f = [nl.find_first_index(i) for i in (2, 3)]
print(f)
assert f == [0, 2]
""")

bug("n05-rad-accepted", "N05", [("freud/locality/FilterRAD.cc",
"""            bool good_neighbor = true;

            // loop over each potential""", """            bool good_neighbor = true;
            std::vector<unsigned int> shell; // neighbors accepted so far

            // loop over each potential"""),
("freud/locality/FilterRAD.cc", "                for (unsigned int k = 0; k < j; k++)\n", "                for (const auto k : shell)\n"),
("freud/locality/FilterRAD.cc", "                if (good_neighbor)\n                {\n                    local_bonds", 
 "                if (good_neighbor)\n                {\n                    shell.push_back(j);\n                    local_bonds")],
"RAD-open with a particle that is blocked only by a particle that is itself blocked",
"FilterRAD keeps bonds that are blocked",
"""
import numpy as np, freud, itertools
rng = np.random.default_rng(1)
box = freud.box.Box.cube(40)
bad = 0
for s in range(60):
    n = 14
    pts = (rng.random((n, 3)) * 8 - 4).astype(np.float32)
    f = freud.locality.FilterRAD(allow_incomplete_shell=True, terminate_after_blocked=False)
    f.compute((box, pts), dict(r_max=15, exclude_ii=True))
    got = set(map(tuple, np.asarray(f.filtered_nlist[:])))
    P = pts.astype(float)
    want = set(); unsure = set()
    for i in range(n):
        v = P - P[i]; d = np.linalg.norm(v, axis=1)
        order = [j for j in np.argsort(d) if j != i]
        for a, j in enumerate(order):
            ok = True
            for k in order[:a]:
                lhs = d[k]**2 * d[j] * d[k]; rhs = (v[j] @ v[k]) * d[j]**2
                if abs(lhs - rhs) < 1e-4 * (abs(lhs) + abs(rhs)): unsure.add((i, j))
                if lhs < rhs: ok = False
            if ok: want.add((i, j))
    bad += len((got ^ want) - unsure)
print(bad)
assert bad == 0
""")

bug("n06-buffer-images", "N06", [("freud/locality/PeriodicBuffer.cc",
"        images = vec3<int>(std::ceil(buff.x / L.x), std::ceil(buff.y / L.y),",
"        images = vec3<int>(std::ceil(buff.x / L.x), std::ceil(buff.y / L.x),")],
"anisotropic box and a buffer distance along y of more than one box length",
"buffer points are missing",
"""
import numpy as np, freud
box = freud.box.Box.square(2); box = freud.box.Box(12, 3, is2D=True)
pts = np.array([[0.1, 0.2, 0]], dtype=np.float32)
pb = freud.locality.PeriodicBuffer().compute((box, pts), buffer=(0, 7, 0))
print(len(pb.buffer_points))
assert len(pb.buffer_points) == 4
""")

bug("c02-gyration-mass", "C02", [("freud/cluster/ClusterProperties.cc",
"        (*m_cluster_gyrations)(c, 1, 2) += delta.y * delta.z;", "        (*m_cluster_gyrations)(c, 1, 2) += delta.y * mass_delta.z;"),
("freud/cluster/ClusterProperties.cc",
"        (*m_cluster_gyrations)(c, 2, 1) += delta.z * delta.y;", "        (*m_cluster_gyrations)(c, 2, 1) += mass_delta.z * delta.y;")],
"clusters of points with different masses scattered across planes so that sum(delta.y) is not exactly zero (centers are circular means)",
"off-diagonal yz element of the gyration tensor mixes the centre of mass and the geometric centre",
"""
import numpy as np, freud
rng = np.random.default_rng(0)
box = freud.box.Box.cube(10)
pts = (rng.random((6, 3)) * 6 - 3).astype(np.float32)
m = np.array([1, 20, 3, 50, 1, 1], dtype=np.float32)
cp = freud.cluster.ClusterProperties().compute((box, pts), np.zeros(6, dtype=np.uint32), masses=m)
d = box.wrap(pts - cp.centers[0]).astype(float)
want = d.T @ d / 6
print(np.abs(cp.gyrations[0] - want).max())
assert np.allclose(cp.gyrations[0], want, atol=1e-3)
""")

bug("d01-finite", "D01", [("freud/density/RDF.cc",
"        number_density *= static_cast<float>(m_n_query_points - 1) / static_cast<float>(m_n_query_points);",
"        number_density *= static_cast<float>(m_n_points - 1) / static_cast<float>(m_n_points);")],
"finite_size normalization with query points that differ in number from the points",
"RDF is scaled by a wrong factor",
"""
import numpy as np, freud
rng = np.random.default_rng(0)
box = freud.box.Box.cube(10)
pts = (rng.random((50, 3)) * 10 - 5).astype(np.float32); qp = (rng.random((5, 3)) * 10 - 5).astype(np.float32)
a = freud.density.RDF(10, 4, normalization_mode="finite_size").compute((box, pts), qp, neighbors=dict(r_max=4))
b = freud.density.RDF(10, 4).compute((box, pts), qp, neighbors=dict(r_max=4))
k = b.rdf > 0
print((a.rdf[k] / b.rdf[k])[:3])
assert np.allclose(a.rdf[k] / b.rdf[k], 5 / 4, rtol=1e-4)
""")

bug("x03-last-bin", "X03", [("freud/util/Histogram.h",
"""        if (bin == m_nbins)
        {
            return bin - 1;
        }
        return bin;""",
"""        return bin;""")],
"a value just below the upper bound that is rounded up to the number of bins",
"the count is written behind the end of the histogram",
"""
import numpy as np, freud
bad = 0; n = 0
for bins in range(2, 400):
    for r_max in (0.7, 1.1, 2.3, 3.3):
        r = np.nextafter(np.float32(r_max), np.float32(0))
        w = np.float32(1) / (np.float32(r_max) / np.float32(bins))
        if r * w < bins: continue
        n += 1
        nl = freud.locality.NeighborList.from_arrays(2, 2, [0], [1], [[r, 0, 0]])
        rdf = freud.density.RDF(bins, r_max).compute((freud.box.Box.cube(10), np.zeros((2, 3))), neighbors=nl)
        bad += rdf.bin_counts[-1] != 1
        if n > 20: break
print(n, bad)
assert n and bad == 0
""", ["X03", "D01"])

bug("x01-reset-skip", "X01", [("freud/locality/BondHistogramCompute.h",
"""        m_histogram = BondHistogram(m_histogram.getAxes());

        m_local_histograms.reset();""",
"""        // Nothing to do before the first frame
        if (m_frame_counter == 0)
        {
            return;
        }
        m_histogram = BondHistogram(m_histogram.getAxes());

        m_local_histograms.reset();""")],
"a compute that is rejected after it has already binned some bonds (BondOrder raising on a zero-length bond), followed by a valid compute on the same object",
"the bonds of the rejected frame are counted in the next result",
"""
import numpy as np, freud
box = freud.box.Box.cube(10)
pts = np.zeros((3, 3), dtype=np.float32); pts[:, 0] = [0, 1, 2]
Q = np.tile([1., 0, 0, 0], (3, 1))
good = freud.locality.NeighborList.from_arrays(3, 3, [0, 1, 2], [1, 2, 0], [[1, .3, 0], [1, .2, .1], [0.3, 1, 2]])
bo = freud.environment.BondOrder((4, 4))
rdf = freud.density.RDF(4, 3)
bad = freud.locality.NeighborList.from_arrays(3, 3, [0, 1], [1, 2], [[1, .3, 0], [1, 2, 3]])
want = freud.environment.BondOrder((4, 4)).compute((box, pts), Q, neighbors=good).bin_counts.copy()
try:
    bo.compute((box, pts), Q, neighbors=freud.locality.NeighborList.from_arrays(3, 3, [0, 1, 2], [1, 2, 0], [[1, .3, 0], [1, .2, .1], [0, 0, 0]]))
except Exception as e: print("raised", e)
got = bo.compute((box, pts), Q, neighbors=good).bin_counts
print(got.sum(), want.sum())
assert (got == want).all()
""")

bug("x02-lazy-counts", "X02", [("freud/locality/FilterSANN.cc",
"""    const auto& sorted_counts = *sorted_nlist.getCounts();
""", ""), ("freud/locality/FilterSANN.cc",
"const unsigned int num_unfiltered_neighbors = sorted_counts(i);",
"const unsigned int num_unfiltered_neighbors = (*sorted_nlist.getCounts())(i);")],
"several threads reaching the lazily updated counts of the sorted list at the same time (large lists)",
"threads read counts while another thread is filling or replacing them; results or process are corrupted",
"""
import numpy as np, freud, subprocess, sys
code = '''
import numpy as np, freud
rng = np.random.default_rng(0)
N = 200000
freud.parallel.set_num_threads(8)
box = freud.box.Box.cube(100)
qi = np.repeat(np.arange(N), 5); pj = (qi + np.tile(np.arange(1, 6), N)) % N
v = np.zeros((5 * N, 3)); v[:, 0] = np.tile([1, 1, 1, 1, 10.], N)
nl = freud.locality.NeighborList.from_arrays(N, N, qi, pj, v)
pts = np.zeros((N, 3), dtype=np.float32)
for k in range(6):
    f = freud.locality.FilterSANN(allow_incomplete_shell=True).compute((box, pts), neighbors=nl)
    c = f.filtered_nlist.neighbor_counts
    assert (c == 4).all(), np.unique(c)
'''
for i in range(3):
    r = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True)
    print(r.returncode, r.stderr[-200:])
    assert r.returncode == 0
""")

bug("b02-periodic-y", "B02", [("freud/box/Box.h",
"        m_periodic = vec3<bool>(m_periodic.x, y, m_periodic.z);", "        m_periodic = vec3<bool>(m_periodic.x, y, m_periodic.x);")],
"setting periodic_y on a box whose x and z periodicity differ",
"the z periodicity changes silently",
"""
import freud
b = freud.box.Box.cube(3); b.periodic_z = False; b.periodic_y = False
print(b.periodic)
assert list(b.periodic) == [True, False, False]
""")

bug("b01-all-distances", "B01", [("freud/box/Box.h",
"""                        distances[i * n_points + j] = computeDistance(query_points[i], points[j]);
                    }""",
"""                        // distances within one set are symmetric
                        if (n_points == n_query_points && j > i)
                        {
                            continue;
                        }
                        distances[i * n_points + j] = computeDistance(query_points[i], points[j]);
                        if (n_points == n_query_points)
                        {
                            distances[j * n_points + i] = distances[i * n_points + j];
                        }
                    }""")],
"compute_all_distances between two different sets of the same size",
"distances above the diagonal are those of other pairs",
"""
import numpy as np, freud
rng = np.random.default_rng(0)
box = freud.box.Box.cube(10)
a = rng.random((5, 3)) - .5; b = rng.random((5, 3)) - .5
d = box.compute_all_distances(a, b)
assert np.allclose(d, np.linalg.norm(a[:, None] - b[None], axis=2), atol=1e-4)
""")

bug("d04-skip-values", "D04", [("freud/density/GaussianDensity.cc",
"""            const float value = (values != nullptr) ? values[idx] : 1.0F;
""",
"""            const float value = (values != nullptr) ? values[idx] : 1.0F;
            // Points without weight do not contribute
            if (value <= 0)
            {
                continue;
            }
""")],
"negative values (charges)", "points of negative value do not contribute to the density",
"""
import numpy as np, freud
box = freud.box.Box.cube(10)
p = np.array([[0., 0, 0]])
a = freud.density.GaussianDensity(10, 3, 1).compute((box, p), values=[-2.0]).density
b = freud.density.GaussianDensity(10, 3, 1).compute((box, p), values=[2.0]).density
assert np.allclose(a, -b) and b.max() > 0
""")

bug("e01-seam", "E01", [("freud/environment/BondOrder.cc",
"                          theta = util::modulusPositive(theta, constants::TWO_PI);",
"""                          if (theta < 0)
                          {
                              theta += constants::TWO_PI;
                          }""")],
"a bond whose azimuth is a tiny negative angle, so that adding 2 pi rounds to 2 pi",
"the bond is dropped from the histogram",
"""
import numpy as np, freud
box = freud.box.Box.cube(10)
nl = freud.locality.NeighborList.from_arrays(2, 2, [0], [1], [[1, -1e-9, 0.3]])
bo = freud.environment.BondOrder((4, 4)).compute((box, np.zeros((2, 3))), np.tile([1., 0, 0, 0], (2, 1)), neighbors=nl)
print(bo.bin_counts.sum())
assert bo.bin_counts.sum() == 1
""")

bug("e02-clip", "E02", [("freud/environment/LocalBondProjection.cc",
"""    float max_proj = dot(proj_vec, local_bond);
""", """    float max_proj = 0;
"""), ("freud/environment/LocalBondProjection.cc",
"        if (proj_test > max_proj)", "        if (i == 0 || std::abs(proj_test) > std::abs(max_proj))")],
"equivalent orientations under which a projection of larger magnitude is negative",
"the projection of largest magnitude is reported instead of the largest",
"""
import numpy as np, freud
box = freud.box.Box.cube(20)
pts = np.array([[0, 0, 0], [1., 0.0, 0]])
nl = freud.locality.NeighborList.from_arrays(2, 2, [0], [1], [[1, 0.2, 0]])
eq = np.array([[1., 0, 0, 0], [np.cos(np.radians(65)), 0, 0, np.sin(np.radians(65))]])
lp = freud.environment.LocalBondProjection().compute((box, pts), np.tile([1., 0, 0, 0], (2, 1)), np.array([[0.1, 1., 0]]), equiv_orientations=eq, neighbors=nl)
def rot(a, v): c, s = np.cos(a), np.sin(a); return np.array([c * v[0] - s * v[1], s * v[0] + c * v[1]])
want = max(rot(a, [0.1, 1.]) @ [1, 0.2] for a in (0, np.radians(130)))
print(lp.projections, want)
assert abs(lp.projections[0, 0] - want) < 1e-4
""")

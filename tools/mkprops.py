#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(quant.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=[dict(zip(("name","meaning","where"), s)) for s in (state or [])],
                     mechanism=[dict(zip(("name","where"), m)) for m in mech],
                     observe_at=observe or [], hook_needed=hook)))

prop("B01", "Box arithmetic is exact lattice arithmetic",
"""For every valid box (2D or 3D, triclinic, any combination of periodic flags) wrapping a point returns the
point that differs from it by an integer combination of the periodic lattice vectors and whose fractional
coordinates lie in [0,1) along every periodic direction; non-periodic directions are left alone and 2D boxes
keep z at 0. Image flags, unwrapping, fractional/absolute conversion, containment, centring, centre of mass,
lattice vectors, volume and pairwise / all-pairs minimum-image distances are all consistent
with that lattice and with each other (in fully periodic boxes unwrap(wrap(x), image(x)) == x; make_absolute(make_fractional(x)) == x;
distances equal the norm of the wrapped difference and do not depend on the images chosen) up to single precision.""",
["inputs", "configurations"],
"all boxes (lengths, tilt factors, dimensionality, periodicity) and all finite point arrays, including points on faces and many images away",
"""tests use a handful of boxes and points, almost never with tilt + partial periodicity + points exactly on a face or
several images away; the statement quantifies over all of them""",
["freud/box/Box.h", "freud/box/export-Box.cc", "freud/box.py", "freud/util/utils.h"],
[("Box::wrap / getImage / unwrap / makeFractional / makeAbsolute", "freud/box/Box.h"),
 ("Box.wrap, .unwrap, .get_images, .center, .center_of_mass, .compute_distances", "freud/box.py")],
[("m_L,m_xy,m_xz,m_yz,m_periodic", "box geometry", "freud/box/Box.h")],
["freud.box.Box public methods"])

prop("B02", "Boxes survive conversion and mutation without loss",
"""Building a box from any supported representation (lengths and tilts, matrix, array, dict, HOOMD/GSD/OVITO-like
object, box_lengths_and_angles, cube/square) and converting it back (to_matrix, to_dict, to_box_lengths_and_angles,
repr, ==) yields the same geometry and dimensionality; from_box of a freud box and scaling a box by a number keep its periodicity,
and scaling scales its lengths only. After any sequence of attribute assignments (lengths, tilts, dimensions, periodicity) the box
behaves exactly like a box freshly constructed with the final values.""",
["inputs", "histories", "configurations"],
"all box representations, and all finite sequences of constructor and setter calls",
"""tests construct one box per representation and check a few attributes; they do not explore setter sequences or
check that every derived operation agrees with a fresh box""",
["freud/box.py", "freud/box/Box.h", "freud/box/export-Box.cc"],
[("Box.from_box / from_matrix / from_box_lengths_and_angles / __mul__ / __eq__", "freud/box.py"),
 ("Box::setL, set2D, setTiltFactor*, setPeriodic*", "freud/box/Box.h")],
None, ["freud.box.Box constructors, setters, converters"])

prop("N01", "Ball queries return exactly the pairs within the cutoff",
"""For every periodic box, point set and query set, and for every neighbor finder (AABBQuery, LinkCell with any cell
width, CellQuery, and raw (box, points) systems) a query with r_max smaller than half the smallest plane distance
returns exactly the pairs (query point i, point j) whose minimum-image distance d satisfies r_min <= d < r_max,
each exactly once, with i == j removed exactly when exclude_ii is set. Each bond carries that distance, the
minimum-image vector from query point to point, and weight 1. (Pairs within single-precision rounding of a cutoff
may fall on either side.)""",
["inputs", "configurations"],
"all boxes, point and query distributions (dense, clustered, on faces, coincident; inside the box, for LinkCell also in other images), r_min/r_max, cell widths, exclude_ii, dimensions",
"""tests compare finders on a few random systems; missing or duplicated neighbors appear only for particular
combinations of cell widths, box shapes and point placement""",
["freud/locality/AABBQuery.cc", "freud/locality/AABBTree.h", "freud/locality/AABB.h", "freud/locality/LinkCell.cc",
 "freud/locality/CellQuery.cc", "freud/locality/CellIterator.h", "freud/locality/NeighborQuery.h", "freud/locality/RawPoints.h", "freud/locality.py"],
[("AABBQueryBallIterator::next, LinkCellQueryBallIterator::next, CellQueryBallIterator", "freud/locality/"),
 ("NeighborQueryIterator::toNeighborList", "freud/locality/NeighborQuery.h")],
[("AABB tree / cell lists", "spatial index over the points", "freud/locality")],
["NeighborQuery.query(...).toNeighborList() and iteration"])

prop("N02", "Nearest-neighbor queries return the k closest points",
"""A query for num_neighbors = k returns, for each query point, the k points with the smallest minimum-image
distances (after exclude_ii removal and the r_min / r_max limits), fewer only when fewer exist within those limits,
each point at most once, with correct distances and vectors. The result does not depend on the search heuristics
r_guess and scale, nor, apart from ties, on the finder or the order of the points.""",
["inputs", "configurations"],
"all boxes, point/query sets, k, r_min, r_max, r_guess, scale, exclude_ii for which the k-th neighbor lies within half the smallest plane distance (anywhere, for AABBQuery and raw points in untilted boxes)",
"""tests use a few k values with the default heuristics; wrong results need particular combinations of r_guess,
scale, r_max and density""",
["freud/locality/AABBQuery.cc", "freud/locality/LinkCell.cc", "freud/locality/NeighborQuery.h", "freud/locality.py"],
[("AABBQueryIterator::next, LinkCellQueryIterator::next", "freud/locality"),
 ("inferMode, validateQueryArgs", "freud/locality/NeighborQuery.h")],
None, ["NeighborQuery.query(dict(num_neighbors=k))"])

prop("N03", "NeighborList stays a consistent sorted bond table under every operation",
"""A NeighborList produced by any route (query, from_arrays, all_pairs, copy) is sorted by query point index, all of its
columns have one entry per bond, segments and neighbor_counts partition the bonds by query point exactly, and
find_first_index gives the segment start. sort, filter, filter_r, copy and chains of them behave like the
same operations on a plain table of bonds: nothing is lost, duplicated, or re-associated with other distances, vectors or weights, and
num_points / num_query_points never change; all_pairs lists every (query, point) pair with the same vector
convention (query point to point, minimum image) as every other route.""",
["inputs", "histories"],
"all bond tables (including empty ones, query points without bonds, repeated bonds) and all sequences of NeighborList operations",
"""tests exercise each operation once on a well-formed list; empty segments, chains of operations and derived
tables (segments, counts) after mutation are not explored""",
["freud/locality/NeighborList.cc", "freud/locality/NeighborList.h", "freud/locality/NeighborBond.h", "freud/locality.py", "freud/locality/export-NeighborList.cc"],
[("NeighborList::filter, filter_r, sort, updateSegmentCounts, find_first_index", "freud/locality/NeighborList.cc"),
 ("NeighborList.from_arrays, all_pairs", "freud/locality.py")],
[("m_neighbors,m_distances,m_weights,m_vectors", "bond columns", "freud/locality/NeighborList.h"),
 ("m_segments,m_counts,m_segments_counts_updated", "lazily derived tables", "freud/locality/NeighborList.h")],
["freud.locality.NeighborList properties and methods"])

prop("N04", "Neighbors do not depend on how or when they are asked for",
"""Lazily iterating a query result yields the same bonds as converting it to a NeighborList, no matter how often it is
consumed, whether several results from one finder are consumed in an interleaved order, or which other queries ran
before. Giving a compute method neighbors=None with defaults, an argument dict, a precomputed NeighborList, or a finder object in
place of the (box, points) system yields the same result, and default neighbor arguments exclude self-pairs exactly when
query_points is not given.""",
["histories", "inputs", "configurations"],
"all interleavings of queries and partial iterations over finder objects, and all equivalent ways of specifying neighbors",
"""tests consume each query result once and immediately; the histories in which cached or shared finder state goes
stale are never produced""",
["freud/locality/NeighborQuery.h", "freud/locality/NeighborPerPointIterator.h", "freud/locality/CellQuery.cc", "freud/locality/LinkCell.cc",
 "freud/locality/AABBQuery.cc", "freud/locality/NeighborComputeFunctional.cc", "freud/locality.py", "freud/util.py"],
[("NeighborQueryIterator::next / toNeighborList", "freud/locality/NeighborQuery.h"),
 ("makeDefaultNlist, loopOverNeighbors*", "freud/locality/NeighborComputeFunctional.cc"),
 ("_PairCompute._preprocess_arguments, _make_default_nlist", "freud/locality.py")],
[("RawPoints::aq, CellQuery grid, LinkCell neighbor cache", "lazily built finder state", "freud/locality")],
["iteration over NeighborQueryResult; compute(neighbors=...)"])

prop("N05", "SANN and RAD filters select the published neighbor shells",
"""Given any neighbor list, FilterSANN keeps for each query point its m nearest neighbors for the smallest m >= 3 whose
solid-angle radius sum(d_1..d_m)/(m-2) does not exceed the next neighbor's distance, and FilterRAD keeps the neighbors not blocked by
a nearer neighbor (RAD-open: any unblocked one; RAD-closed: those before the first blocked one). The filtered list is
a subset of the input bonds with unchanged distances, vectors and weights, the same numbers of points and query points,
and unfiltered_nlist is the list that was filtered; query points whose shell cannot be completed raise an error unless
allow_incomplete_shell is set.""",
["inputs", "configurations"],
"all systems and neighbor lists (empty, partial, unsorted), terminate_after_blocked and allow_incomplete_shell",
"tests compare filters on perfect crystals and check one random system; irregular shells, bond data and empty or partial lists are not covered",
["freud/locality/FilterSANN.cc", "freud/locality/FilterRAD.cc", "freud/locality/Filter.h", "freud/locality.py"],
[("FilterSANN::compute", "freud/locality/FilterSANN.cc"), ("FilterRAD::compute", "freud/locality/FilterRAD.cc")],
None, ["filtered_nlist, unfiltered_nlist"])

prop("N06", "Periodic buffering and unit-cell replication produce exactly the images",
"""PeriodicBuffer returns exactly the periodic images of the points lying in the requested buffer region (by distance or
by whole image count, per dimension, with or without the originals), each once, together with the index of the
original particle, and reports the enlarged box. UnitCell.generate_system places num_replicas copies of the basis on the
lattice of a box enlarged accordingly, with optional deterministic noise, and the standard cells have the documented
basis; make_random_system draws points inside the box reproducibly from its seed.""",
["inputs", "configurations"],
"all boxes (2D/3D, triclinic), point sets, buffer sizes and image counts, replica counts and seeds",
"tests use a few cubic/square boxes and fixed buffer sizes",
["freud/locality/PeriodicBuffer.cc", "freud/locality.py", "freud/data.py"],
[("PeriodicBuffer::compute", "freud/locality/PeriodicBuffer.cc"), ("UnitCell.generate_system, make_random_system", "freud/data.py")],
None, ["buffer_points, buffer_ids, buffer_box; generate_system()"])

prop("C01", "Clusters are the connected components of the neighbor graph",
"""Cluster assigns two points the same cluster index if and only if a chain of neighbor bonds connects them, for any
neighbor specification; isolated points form their own clusters. Cluster indices are 0..num_clusters-1
in order of non-increasing size, and cluster_keys lists for each cluster exactly the keys of its points (the point indices by default).""",
["inputs", "schedules", "configurations"],
"all graphs given by neighbor lists or query arguments, all key assignments, all thread schedules",
"tests check a few small hand-built systems; union-find merge orders and thread interleavings are not explored",
["freud/cluster/Cluster.cc", "freud/cluster/Cluster.h", "freud/cluster.py"],
[("concurrent disjoint set union, relabel by size", "freud/cluster/Cluster.cc")],
[("DisjointSets", "union-find parents", "freud/cluster/Cluster.cc")],
["cluster_idx, num_clusters, cluster_keys"])

prop("C02", "Cluster properties are the exact per-cluster moments",
"""For any assignment of points to cluster indices and any positive masses, ClusterProperties reports for each cluster its size and total mass,
the periodic geometric center and mass center (the circular means Box.center_of_mass defines, which coincide with the plain means up to higher orders for compact clusters), the gyration tensor about the geometric center,
the mass-weighted inertia tensor about the mass center and the corresponding radius of gyration. Results do not
depend on the order of the points or on which periodic image each is given in, for clusters smaller than half the box.""",
["inputs"],
"all point sets, cluster assignments in any order, masses, and periodic boxes",
"tests use clusters whose members are contiguous in memory, and mostly unit masses",
["freud/cluster/ClusterProperties.cc", "freud/cluster.py"],
[("ClusterProperties::compute", "freud/cluster/ClusterProperties.cc")],
None, ["centers, centers_of_mass, gyrations, inertia_tensors, sizes, cluster_masses, radii_of_gyration"])

prop("D01", "RDF is the shell-normalised pair histogram",
"""For every set of frames RDF.bin_counts holds the exact number of (query point, point) bonds whose distance falls in each half-open bin
of [r_min, r_max), summed over frames; rdf is those counts divided by the ideal-gas expectation for the exact shell
volume (area in 2D), the number of points and query points, the box volume and the number of frames, in the chosen normalization mode, and
n_r is its running cumulative count per query point. Bin edges, centers and bounds describe those bins.""",
["inputs", "histories", "configurations"],
"all systems, bins, r_min, r_max, normalization modes, dimensions, query points, and sequences of accumulated frames",
"tests check limits such as ideal-gas ~1 within tolerances and a few totals",
["freud/density/RDF.cc", "freud/density/RDF.h", "freud/density.py", "freud/util/Histogram.h", "freud/locality/BondHistogramCompute.h"],
[("RDF::accumulateRDF, reduce", "freud/density/RDF.cc"), ("RegularAxis::bin", "freud/util/Histogram.h")],
None, ["rdf, n_r, bin_counts, bin_edges, bin_centers"])

prop("D02", "Correlation functions average the right value pairs per bin",
"""CorrelationFunction.correlation is, in each distance bin, the mean over all bonds in that bin (over all accumulated frames) of the complex
conjugate of the point's value times the query point's value, and exactly 0 in bins without bonds; bin_counts is the
number of those bonds. Real inputs yield the same result as complex inputs with zero imaginary part.""",
["inputs", "histories"],
"all systems, real/complex values, query points and values, bins, and accumulated frames",
"tests use constant or random values with approximate expectations",
["freud/density/CorrelationFunction.cc", "freud/density.py", "freud/util/Histogram.h"],
[("CorrelationFunction::accumulate, reduce, CFThreadHistogram", "freud/density/CorrelationFunction.cc")],
None, ["correlation, bin_counts"])

prop("D03", "Local density is the overlap-corrected neighbor count per volume",
"""LocalDensity.num_neighbors is, for each query point, the sum over its neighbors of 1 when the neighbor's particle of the
given diameter lies fully inside r_max, and of the linearly decreasing overlap fraction (never negative)
when it straddles r_max; density is that number divided by the area (2D) or volume (3D) of the r_max sphere.""",
["inputs", "configurations"],
"all systems, r_max, diameters (0 included), neighbor specifications",
"tests check approximate densities of random systems",
["freud/density/LocalDensity.cc", "freud/density.py"], [("LocalDensity::compute", "freud/density/LocalDensity.cc")],
None, ["density, num_neighbors"])

prop("D04", "Gaussian density and sphere voxelization rasterise every particle exactly",
"""On an orthorhombic box, GaussianDensity at each voxel is the sum over points within r_max (minimum image, measured at the voxel center) of
the point's value times a normalised Gaussian of width sigma, each point contributing to each voxel at
most once; SphereVoxelization marks a voxel 1 exactly when its center lies within r_max of some point. Both hold
for any grid shape, for points anywhere in the box including its faces, and r_max up to half the box.""",
["inputs", "configurations"],
"all orthorhombic boxes in 2D/3D, grid widths, r_max, sigma, values and point sets",
"tests check sums and one reference grid",
["freud/density/GaussianDensity.cc", "freud/density/SphereVoxelization.cc", "freud/density.py"],
[("GaussianDensity::compute", "freud/density/GaussianDensity.cc"), ("SphereVoxelization::compute", "freud/density/SphereVoxelization.cc")],
None, ["density, voxels"])

prop("E01", "BondOrder counts every bond direction once in its solid-angle bin",
"""BondOrder.bin_counts counts every neighbor bond exactly once (over all accumulated frames) in the (azimuthal, polar) bin of its direction,
in the frame of reference selected by the mode (bod: laboratory; lbod: the point's frame; obcd: query orientation applied, then into the point's
frame; oocd: relative orientation of the two particles); bond_order is those counts divided by each bin's solid angle and the number of frames.
No bond is lost at the poles or the azimuthal seam.""",
["inputs", "histories", "configurations"],
"all neighbor lists, orientations, modes, bin counts and accumulated frames",
"tests check a crystal and a few rotations",
["freud/environment/BondOrder.cc", "freud/environment.py", "freud/util/Histogram.h"],
[("BondOrder::accumulate, reduce", "freud/environment/BondOrder.cc")],
None, ["bond_order, bin_counts"])

prop("E02", "Angular separations and bond projections are symmetry-minimised correctly",
"""AngularSeparationGlobal and AngularSeparationNeighbor return for each (orientation, reference) pair or bond the smallest rotation angle
between the two orientations over the given equivalent orientations, in the order of the bonds of the reported
neighbor list, using each bond's own query point and point. LocalBondProjection returns, per bond and per projection vector, the
largest projection of the bond, expressed in the point's local frame, over the equivalent directions, and its value normalised by
the bond length.""",
["inputs", "configurations"],
"all orientations, equivalence sets, neighbor specifications, and different point / query point sets",
"tests use matching point/query sets of equal size and a few orientations",
["freud/environment/AngularSeparation.cc", "freud/environment/LocalBondProjection.cc", "freud/environment.py", "freud/util/VectorMath.h"],
[("computeMinSeparationAngle", "freud/environment/AngularSeparation.cc"), ("computeMaxProjection", "freud/environment/LocalBondProjection.cc")],
None, ["angles, projections, normed_projections, nlist"])

prop("O01", "Hexatic order is the weighted mean bond phase",
"""Hexatic.particle_order for each query particle is the mean of exp(i k theta) over its neighbor bonds, theta being the
bond angle in the plane (weighted by the neighbor list's weights when weighted is set), so its magnitude never exceeds 1
(for non-negative weights), it is 1 for a perfect k-fold shell, and rotating the system by phi multiplies it by exp(i k phi).""",
["inputs", "configurations"], "all 2D systems, k, weighted flag, and neighbor lists (including weighted ones and query points distinct from points)",
"tests use perfect lattices and default neighbor choices",
["freud/order/HexaticTranslational.cc", "freud/order/HexaticTranslational.h", "freud/order.py"],
[("HexaticTranslational::computeGeneral", "freud/order/HexaticTranslational.cc")], None, ["particle_order"])

prop("O02", "Cubatic order matches its tensor definition and is reproducible",
"""Cubatic.global_tensor is the mean over particles of the symmetric rank-4 tensor of their local axes minus its isotropic part,
cubatic_tensor is that of the cubatic orientation reported in orientation, order equals 1 - |global - cubatic|^2/|cubatic|^2 and never exceeds 1,
and particle_order is 1 - |global - C(q_i)|^2/|C(q_i)|^2 with the tensor C(q_i) of each particle. For perfectly aligned particles order is 1 within
the annealing tolerance, and the result depends only on the inputs and the seed, not on the number of threads or replicates' scheduling.""",
["inputs", "schedules", "configurations"], "all orientation sets, temperatures, scale, replicate counts, seeds and thread counts",
"tests check a few aligned/disordered sets with loose bounds, and never vary the thread count",
["freud/order/Cubatic.cc", "freud/order.py"], [("Cubatic::compute, simulated annealing", "freud/order/Cubatic.cc")],
None, ["order, particle_order, global_tensor, cubatic_tensor, orientation"])

prop("O03", "Rotational autocorrelation equals the hyperspherical correlation",
"""RotationalAutocorrelation(l) (l even) gives each particle the degree-l hyperspherical-harmonic correlation between its reference
and current orientation, i.e. U_l(cos(theta/2))/(l+1)-type Chebyshev value of the relative rotation angle theta, normalised
to 1 for an unchanged orientation for every l, bounded by 1 in magnitude, and order is the mean of its real part over particles.""",
["inputs"], "all pairs of orientation arrays and all degrees l", "tests use l = 2 and small files",
["freud/order/RotationalAutocorrelation.cc", "freud/order.py"], [("RotationalAutocorrelation::compute, hypersphere_harmonic", "freud/order/RotationalAutocorrelation.cc")],
None, ["order, particle_order"])

prop("P01", "PMFT counts each pair once in its relative-pose bin",
"""Each PMFT (R12, XY, XYT, XYZ) counts every neighbor bond (for XYZ: once per equivalent orientation) exactly once in the bin of its relative
coordinates: the displacement from query point to point, rotated into the query particle's frame (XY, XYT, XYZ), or distance and the two
orientation angles measured from the bond (R12), with angles periodic in 2 pi; only pairs outside the binned range are dropped.
pmft is minus the logarithm of those counts divided by the ideal-gas expectation (number of points and query points, box volume, bin volume including
the Jacobian, frames, equivalent orientations), infinite for empty bins.""",
["inputs", "histories", "configurations"], "all systems, orientations, bins and ranges, equivalence sets, shift vectors, query points, accumulated frames",
"tests check a few hand-placed particles; orientations are mostly zero",
["freud/pmft/PMFT.h", "freud/pmft/PMFTR12.cc", "freud/pmft/PMFTXY.cc", "freud/pmft/PMFTXYT.cc", "freud/pmft/PMFTXYZ.cc", "freud/pmft.py", "freud/util/Histogram.h"],
[("PMFT*::accumulate, reduce", "freud/pmft"), ("_gen_angle_array, pmft property", "freud/pmft.py")],
None, ["pmft, bin_counts, bin_edges, bin_centers"])

prop("S01", "Debye structure factor is the sinc (J0) pair sum",
"""StaticStructureFactorDebye.S_k at each k is the sum over all (query point, point) pairs of sin(kr)/(kr) (J0(kr) in 2D) at the
minimum-image distance r, divided by the total number of points (N_total), averaged over accumulated frames; k_values are the documented
evenly spaced bins and min_valid_k is 4 pi over the smallest box length seen. Partial structure factors add up to the total.""",
["inputs", "histories"], "all systems, k ranges, query points with N_total, accumulated frames", "tests compare with one external implementation on small systems",
["freud/diffraction/StaticStructureFactorDebye.cc", "freud/diffraction/StaticStructureFactor.cc", "freud/diffraction.py"],
[("StaticStructureFactorDebye::accumulateStructureFactor", "freud/diffraction/StaticStructureFactorDebye.cc")], None, ["S_k, k_values, min_valid_k"])

prop("S02", "Diffraction patterns obey Fourier symmetry and normalisation",
"""DiffractionPattern.diffraction is the Fourier power |sum_j w_j exp(i k.x_j)|^2 / N of the projected (grid-binned) points: non-negative, inversion symmetric about k = 0,
equal to N (for unit weights) at k = 0, averaged (not summed)
over accumulated frames, independent of a global translation of the points by grid steps and of rotating points and view together; peaks of a crystal appear at its reciprocal-lattice vectors, with k_values describing the axes.""",
["inputs", "histories", "configurations"], "all cubic/square-box systems, grid/output sizes, zooms, view orientations and accumulated frames",
"tests check array shapes, the centre peak and a few crystals",
["freud/diffraction.py"], [("DiffractionPattern.compute, _transform, _calc_proj", "freud/diffraction.py")], None, ["diffraction, k_values, k_vectors"])

prop("M01", "MSD equals the displacement averages of its mode",
"""MSD in window mode equals, for every lag m, the average over all particles and all start times of |r(t+m)-r(t)|^2; in direct mode it equals the
average over particles of |r(t)-r(0)|^2. particle_msd holds the per-particle values whose mean is msd, positions with images
are unwrapped by the box first, successive compute calls with reset=False add particles, and the result does not change when the whole trajectory is shifted.""",
["inputs", "histories", "configurations"], "all trajectories, box/images, modes, and sequences of compute calls", "tests check linear and random-walk trajectories of small size",
["freud/msd.py", "freud/box/Box.h"], [("MSD.compute, FFT window algorithm", "freud/msd.py")], None, ["msd, particle_msd"])

prop("I01", "Interface points are exactly the points bonded across",
"""Interface.point_ids / query_point_ids are exactly the sorted unique indices of points / query points taking part in at least one
neighbor bond between the two sets, and the reported counts are their lengths.""",
["inputs", "configurations"], "all pairs of point sets and neighbor specifications", "tests use two hand-placed sets",
["freud/interface.py"], [("Interface.compute", "freud/interface.py")], None, ["point_count, point_ids, query_point_count, query_point_ids"])

prop("X01", "Accumulation and reset make results depend only on the intended frames",
"""For every analysis that can accumulate, any sequence of compute calls with reset=False after a reset gives the same result as any
other order of the same frames and combines them as documented (histogram counts add; averages are over frames), while compute with
reset=True (the default) or any other compute object's repeated use gives the result a fresh object would, whatever was computed before,
with different sizes, boxes or neighbor arguments. Reading a result never changes it, results requested before any compute raise AttributeError, and a rejected compute call leaves nothing behind that shows in the results of later computes with reset=True.""",
["histories"], "all finite sequences of compute / reset / read calls on one object",
"tests accumulate identical frames once; mixed sequences, sizes and read/compute interleavings are not covered",
["freud/util.py", "freud/util/Histogram.h", "freud/util/ThreadStorage.h", "freud/util/ManagedArray.h", "freud/locality/BondHistogramCompute.h", "freud/density.py",
 "freud/pmft.py", "freud/environment.py", "freud/diffraction.py", "freud/cluster.py", "freud/order.py"],
[("_Compute._computed_property", "freud/util.py"), ("BondHistogramCompute::reset, reduceHistogram", "freud/locality/BondHistogramCompute.h")],
[("m_reduce, m_frame_counter, local histograms", "accumulation state", "freud/locality/BondHistogramCompute.h")],
["all compute classes"])

prop("X02", "Results do not depend on threads or scheduling, and computing is race-free",
"""For the same inputs every compute and query gives the same result for any number of threads and any way the work is split and interleaved
(bit-identical for integer results; up to floating-point summation order otherwise), and no two worker threads access the
same memory without synchronisation when one of them writes. set_num_threads / NumThreads take effect and restore as documented.""",
["schedules", "configurations"], "all thread counts, range partitions and interleavings of the parallel loops", "tests run once with default threads and cannot observe races that do not change the result",
["freud/util/utils.h", "freud/util/ThreadStorage.h", "freud/util/Histogram.h", "freud/locality/NeighborComputeFunctional.cc", "freud/locality/NeighborQuery.h", "freud/locality/LinkCell.cc", "freud/cluster/Cluster.cc", "freud/order/Cubatic.cc", "freud/parallel.py", "freud/parallel/tbb_config.cc"],
[("forLoopWrapper, ThreadStorage, thread-local histograms", "freud/util"), ("concurrent disjoint sets", "freud/cluster/Cluster.cc")],
None, ["all compute classes under 1..N threads; ThreadSanitizer reports"])

prop("X03", "No memory error or undefined behaviour for any accepted input",
"""No sequence of public API calls, with any arguments the API accepts (empty, single-point, degenerate, coincident, on-face or non-contiguous arrays, mismatched sizes included), reads or writes
memory out of bounds, uses freed or uninitialised memory, performs undefined arithmetic conversions, or crashes the
interpreter: it returns a result or raises a Python exception.""",
["inputs", "histories"], "all accepted inputs and call sequences", "a plain run does not notice most out-of-bounds accesses, and tests use well-formed input",
["freud/util/ManagedArray.h", "freud/util/Histogram.h", "freud/locality", "freud/density", "freud/environment", "freud/pmft", "freud/cluster", "freud/order", "freud/diffraction"],
[("array shape validation", "freud/util.py"), ("ManagedArray bounds", "freud/util/ManagedArray.h")], None, ["AddressSanitizer / UBSan reports, process status"])

prop("X04", "Inputs are never modified and results are stable, whatever the array layout",
"""No call modifies the arrays passed to it, and the result is the same for any dtype that converts to the documented type, any memory layout
(non-contiguous, Fortran-ordered, read-only) and lists in place of arrays. Arrays and neighbor lists obtained from an object stay valid
and unchanged after the object is reset, starts a new computation or is garbage collected (an object still accumulating with reset=False
updates the arrays of that accumulation), and finder objects keep using the points they were built with.""",
["inputs", "histories"], "all input layouts and dtypes, and all orders of reading, recomputing and deleting objects",
"tests pass fresh contiguous float32 arrays and drop results at once",
["freud/util.py", "freud/util/ManagedArray.h", "freud/util/export-ManagedArray.cc", "freud/util/export-ManagedArray.h", "freud/locality.py", "freud/locality/NeighborQuery.h"],
[("_convert_array", "freud/util.py"), ("ManagedArray::reset / prepare copy-on-shared", "freud/util/ManagedArray.h")], None, ["all compute classes"])

prop("X05", "Analyses respect translation, axis, permutation and scale symmetry",
"""Translating all points (with wrapping), permuting points (with their attributes), or swapping equivalent
axes of an orthorhombic box changes no scalar result of any analysis other than by permuting per-particle outputs (and rotating vectors and tensors) accordingly,
and scaling all lengths rescales results as their units demand.""",
["inputs", "configurations"], "all systems and all such transformations", "tests never transform whole systems across all analyses",
["freud/locality", "freud/density", "freud/cluster", "freud/order", "freud/environment", "freud/pmft", "freud/diffraction", "freud/msd.py", "freud/interface.py", "freud/box/Box.h"],
[("minimum-image wrapping in every kernel", "freud/box/Box.h")], None, ["all compute classes"])

prop("X06", "Invalid requests are rejected instead of silently miscomputed",
"""Requests outside an operation's domain raise a Python exception and return nothing: arrays of wrong shape or length (points, masks, orientations, values, masses, neighbor lists
whose point or query point counts do not match the per-point data an analysis reads through them), contradictory or unknown query arguments,
r_max not below half the smallest plane distance or non-periodic boxes for finders that cannot support them, out-of-range bins, widths and
cutoffs, and 2D/3D mismatches for dimension-specific analyses.""",
["inputs", "configurations"], "all invalid argument combinations of the listed kinds for every class", "tests check a few messages per class",
["freud/util.py", "freud/locality.py", "freud/density.py", "freud/environment.py", "freud/cluster.py", "freud/pmft.py", "freud/order.py", "freud/box.py", "freud/locality/NeighborQuery.h", "freud/locality/NeighborList.cc"],
[("_convert_array shape checks", "freud/util.py"), ("constructor and validateQueryArgs checks", "freud/locality/NeighborQuery.h")], None, ["exceptions raised by constructors and compute methods"])

prop("V01", "Voronoi cells tile the box and give facet-weighted neighbors",
"""For every periodic box (2D and 3D, triclinic, also so small that cells touch images of their own point) and every set of distinct points, wherever they are
given, the cells that Voronoi reports fill the box: every volume is positive and they sum to the volume of the box. Every vertex of polytopes[i]
is at least as near to point i as to any other point or image and lies on the facets meeting there (polygons in 2D are flat and in
counter-clockwise order). nlist contains every facet that is not vanishingly small as a bond: its vector is the true separation of the two images the facet
separates, its distance the length of that vector, its weight the area (2D: length) of the facet; bonds are sorted by query point and point, and every
bond has its opposite of equal weight. Results of earlier computations are not changed by later ones.""",
["inputs", "configurations", "histories"], "all periodic boxes and sets of distinct points", "tests use a square, a few random systems and lattices, and compare counts and volume sums",
["freud/locality/Voronoi.cc", "freud/locality/Voronoi.h", "freud/locality.py"],
[("Voronoi::compute (facet filter, bond vectors, vertex sorting)", "freud/locality/Voronoi.cc")], None, ["locality.Voronoi.volumes", "locality.Voronoi.polytopes", "locality.Voronoi.nlist"])

prop("O04", "Steinhardt, SolidLiquid and ContinuousCoordination follow their definitions",
"""For every system, neighbor list and choice of options: Steinhardt particle_harmonics are the (optionally weight-averaged) means over a particle's bonds of Y_lm of the
bond vectors, ql = sqrt(4 pi/(2l+1) sum |q_lm|^2), wl the third-order invariant with 3j symbols (normalised by (sum |q_lm|^2)^(3/2) if requested),
average=True replaces q_lm by its mean over the particle and its neighbors (ql stays that of the particle itself), order is the same function of the mean q_lm, several l give the columns each would give
alone, and particles without neighbors have nan. SolidLiquid ql_ij are the (normalised) products of the q_lm of bonded particles, bonds above
q_threshold are solid, num_connections counts them, and clusters are the connected components of particles with enough solid bonds, labelled by size.
ContinuousCoordination equals its log, power or exponential sums over the weights of the Voronoi cells for every requested power.""",
["inputs", "configurations"], "all systems, neighbor lists and options (l, average, wl, weighted, wl_normalize, thresholds, powers)", "tests use fcc, bcc and a few random systems with the options one at a time",
["freud/order/Steinhardt.cc", "freud/order/Wigner3j.cc", "freud/order/SolidLiquid.cc", "freud/order/ContinuousCoordination.cc", "freud/order.py"],
[("Steinhardt::baseCompute, computeAve, aggregatewl", "freud/order/Steinhardt.cc"), ("SolidLiquid::compute", "freud/order/SolidLiquid.cc"), ("ContinuousCoordination::compute", "freud/order/ContinuousCoordination.cc")],
None, ["order.Steinhardt", "order.SolidLiquid", "order.ContinuousCoordination"])

prop("O05", "Nematic order is the largest eigenvalue of the mean Q tensor",
"""For every set of orientation vectors, Nematic's particle_tensor rows are (3 u u^T - 1)/2 of the normalised vectors, nematic_tensor is their mean, order its largest eigenvalue and
director a unit eigenvector of it; the result does not depend on the order or the signs of the vectors and rotates with them.""",
["inputs"], "all non-empty sets of non-zero vectors", "tests use aligned and random vectors only",
["freud/order/Nematic.cc", "freud/util/diagonalize.cc", "freud/order.py"],
[("Nematic::compute", "freud/order/Nematic.cc"), ("diagonalize33SymmetricMatrix", "freud/util/diagonalize.cc")], None, ["order.Nematic.order", "order.Nematic.director", "order.Nematic.nematic_tensor", "order.Nematic.particle_tensor"])

prop("E03", "Environment matching finds motifs up to permutation and rotation",
"""The environment of a point is the set of vectors of its bonds to other points. Two environments are similar when they have the same positive number of vectors and some pairing (with
registration: after some rotation) brings all paired vectors within the threshold of each other. EnvironmentCluster's clusters are the connected components of points joined by
a bond of the cluster neighbors between similar environments, labelled 0, 1, ... in order of first appearance; point_environments[i] are
the point's own vectors in the order (and frame) of its cluster and cluster_environments[c] the mean over the cluster's points. EnvironmentMotifMatch
marks exactly the points whose environment is similar to the motif and gives their vectors in its order and frame; the RMSD minimiser gives 0 for (rotated) copies of the motif, -1 for
other numbers of vectors, and never less than the best pairing without rotation. Points without neighbors match nothing, and every computation stands alone.
(Environments for which several pairings are within the threshold are excepted: the pairing is found greedily.)""",
["inputs", "configurations", "histories"], "all systems, environment and cluster neighbors, thresholds, motifs, with and without registration", "tests use a few hand-made motifs and one lattice",
["freud/environment/MatchEnv.cc", "freud/environment/MatchEnv.h", "freud/environment/Registration.h", "freud/util/BiMap.h", "freud/environment.py"],
[("isSimilar, EnvDisjointSet::merge, populateEnv", "freud/environment/MatchEnv.cc"), ("RegisterBruteForce::Fit, AlignedRMSDTree, KabschAlgorithm", "freud/environment/Registration.h")],
None, ["environment.EnvironmentCluster", "environment.EnvironmentMotifMatch", "environment._EnvironmentRMSDMinimizer"])

prop("E04", "Local descriptors are the spherical harmonics of the bonds in the chosen frame",
"""LocalDescriptors.sph has one row per bond of nlist, in its order, holding Y_lm of the bond vector for l = 0..l_max and m = 0..l (then -1..-l with negative_m), without the Condon-Shortley
phase for positive m. In global mode the vector is used as it is, in particle_local mode it is rotated into the frame of the query point's orientation, and in neighborhood
mode into the principal axes of the moment of inertia of that point's bonds (the first max_num_neighbors of them), in order of increasing moment. Rows of bonds beyond
max_num_neighbors of a query point are left zero. This holds for every number of query points, and num_sphs is the number of bonds.""",
["inputs", "configurations"], "all systems, query points, neighbor specifications, orientations, modes, l_max, negative_m and max_num_neighbors", "tests check shapes and one nearest-neighbor list in global mode",
["freud/environment/LocalDescriptors.cc", "freud/environment/LocalDescriptors.h", "freud/util/diagonalize.cc", "freud/environment.py"],
[("LocalDescriptors::compute", "freud/environment/LocalDescriptors.cc")], None, ["environment.LocalDescriptors.sph", "environment.LocalDescriptors.nlist", "environment.LocalDescriptors.num_sphs"])

prop("S03", "The direct structure factor is the mean Fourier product over reported k vectors",
"""StaticStructureFactorDirect's S_k in a bin is the mean over the k vectors it reports whose length lies in the bin of the product of the Fourier sums of points and query points, divided by N_total
(averaged over frames with reset=False); bins without k vectors are 0. The k vectors are reciprocal-lattice vectors of the box with non-negative indices and
lengths in [k_min, k_max]: all of them when num_sampled_k_points is 0, and a sample whose expected number is the requested one otherwise. min_valid_k is
2 pi over the smallest box length; k_values, bin counts, k_min and k_max are those requested.""",
["inputs", "configurations", "histories"], "all boxes, point sets, bins, k ranges, sampling targets, partial structure factors and sequences of frames", "tests use cubic systems with one setting",
["freud/diffraction/StaticStructureFactorDirect.cc", "freud/diffraction/StaticStructureFactorDirect.h", "freud/diffraction.py"],
[("reciprocal_isotropic, compute_F_k, compute_S_k, accumulate", "freud/diffraction/StaticStructureFactorDirect.cc")], None, ["diffraction.StaticStructureFactorDirect.S_k", "diffraction.StaticStructureFactorDirect.k_points", "diffraction.StaticStructureFactorDirect.min_valid_k"])

prop("R01", "Reported parameters, axes and defaults are those in force",
"""Every analysis reports, before the first compute, after it and after later ones, the parameters it was given (or the documented defaults); its histogram bounds, bin edges and bin
centers are the uniform partition those parameters define; its default query arguments are the documented function of them, and computing without neighbors equals computing with those
arguments. The reported box is the box of the last system. Where repr is a constructor expression, evaluating it rebuilds an object that reports the same parameters and computes the same results
(to the precision the expression prints).""",
["inputs", "configurations", "histories"], "all analyses, constructor arguments, systems and sequences of computes",
"tests read a few getters after construction with one set of arguments and compare repr strings, which shows neither that the values are those used nor that they stay so after computing",
["freud/density.py", "freud/order.py", "freud/pmft.py", "freud/environment.py", "freud/locality.py", "freud/diffraction.py", "freud/cluster.py", "freud/msd.py", "freud/data.py", "freud/util/Histogram.h",
 "freud/density/export-RDF.cc", "freud/pmft/export-PMFT.cc", "freud/environment/export-BondOrder.cc"],
[("RegularAxis, Histogram::getBinEdges / getBinCenters / getBounds", "freud/util/Histogram.h"), ("default_query_args, __repr__ and property getters", "freud/*.py")],
None, ["repr(), properties, nbins, bounds, bin_edges, bin_centers, default_query_args and box of every analysis"])

prop("X07", "The same system gives the same results in every accepted form",
"""A system handed over as a (box, points) pair or list, a query object, an object with box and points, an MDAnalysis timestep, a gsd frame, or a garnett, OVITO or HOOMD snapshot, with the points as list
or array of any float type and the box as a Box, dict, list, matrix or object, has the box, dimensionality and points those data describe: the same as the plain (Box, points) pair, for triclinic and 2D boxes
too. Analyses of it give the same results, and query objects are used as they are.""",
["inputs", "configurations"], "all boxes, points and accepted forms of a system",
"tests convert one small orthorhombic system per form, if its library is installed, and check the types",
["freud/locality.py", "freud/box.py", "freud/util.py", "freud/locality/LinkCell.cc"],
[("NeighborQuery.from_system", "freud/locality.py"), ("Box.from_box, Box.from_matrix", "freud/box.py")], None, ["locality.NeighborQuery.from_system", "compute(system) of every analysis", "box.Box.from_box"])

prop("X08", "Plots show the computed values where they belong",
"""Plotting an analysis draws the values it computed at their coordinates: curves are the reported values over the reported bin centers (those above min_valid_k for structure factors), images have every bin or pixel at
its data coordinates within the extent of the axes, with the documented colour limits, histograms and bars hold every value or the sizes and keys of the largest clusters in decreasing order, drawn boxes have exactly the
edges of the box (of the requested image; three-dimensional ones on axes of one scale centred on it), cells and points are drawn where they are. Given axes are used and returned, a requested title is shown, uncomputed objects have no plot, and plotting changes no result.""",
["inputs", "configurations"], "all analyses with a plot method, parameters, systems, and own or given axes",
"tests only call the plot methods and look at no artist; a transposed, mirrored or mislabelled picture passes them all",
["freud/plot.py", "freud/box.py", "freud/locality.py", "freud/density.py", "freud/diffraction.py", "freud/pmft.py", "freud/cluster.py", "freud/order.py", "freud/msd.py"],
[("line_plot, bar_plot, clusters_plot, histogram_plot, density_plot, pmft_plot, box_plot, system_plot, voronoi_plot, diffraction", "freud/plot.py")], None, ["plot methods, to_image and _repr_png_ of every analysis"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")

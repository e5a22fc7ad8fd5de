# Single source of properties.jsonl and MANIFEST.json (tools/gen.py writes both).
P = []
NA = []   # (id, reason)

def prop(id, title, statement, over, qtext, why, files, mech, technique, note, claim=True, **kw):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, claim=claim, **kw))

prop("P05", "Time groups respect every element's CFL limit and differ by at most one",
     "For every mesh and every distribution of wave speeds, the preprocessing assigns each element to the largest time group whose step does not exceed the element's relative CFL time step "
     "(diameter over mean wave speed, normalized to a minimum of one), lowered only as far as needed so that face-adjacent elements differ by at most one group. "
     "The reported group intervals, element counts (global and per region) and speedup agree with that assignment.",
     ["inputs", "configurations"], "all adjacency graphs, element numberings, time step distributions, rates and fundamental steps within the bounds",
     "the tests check two hand-written examples; the normalization's fixed point depends on graph shape and numbering",
     ["tools/edge_v/src/time/Groups.cpp", "tools/edge_v/src/time/Cfl.cpp"],
     [("interval assignment and iterated normalization", "tools/edge_v/src/time/Groups.cpp"), ("CFL time steps and their normalization", "tools/edge_v/src/time/Cfl.cpp")],
     "bounded exhaustive enumeration of meshes/time steps on the real code against a reference fixed point",
     "Exhaustive within the stated bounds (all graphs with <=4 elements, chains/cycles in all numberings, stars of all element types); symmetric adjacency assumed.")

prop("P14", "Point sources inject exactly the integral of their source time function",
     "Over any sequence of time steps, each kinematic point source adds to its host element exactly the integral of its piecewise linear source time function over the simulated time, "
     "times its scaling and the evaluated basis at its location; nothing is injected before its onset, after its last sample or into other elements or fused simulations. "
     "The result does not depend on how time is split into steps, how source elements are split into regions, or in which order sources and elements are numbered.",
     ["inputs", "histories", "configurations"], "all series, integration intervals, source placements, step patterns and region splits within the bounds",
     "the tests integrate one series over a dozen intervals, none of them inside a single sampling interval, and skip the source test when its data file is missing",
     ["src/linalg/Series.hpp", "src/impl/seismic/setups/PointSources.hpp", "src/data/SparseEntities.hpp"],
     [("piecewise linear integration", "src/linalg/Series.hpp"), ("source-to-element mapping, permutation and application", "src/impl/seismic/setups/PointSources.hpp")],
     "bounded exhaustive enumeration of series/intervals and source placements on the real code against exact integrals",
     "Exhaustive within the stated bounds; trusts HDF5, and the DG basis evaluation (decided by its own property).")

LTS_FILES = ["src/time/Manager.cpp", "src/time/TimeGroupStatic.cpp", "src/impl/seismic/inc/time/man_sched.inc", "src/impl/seismic/steps.inc", "src/parallel/Shared.cpp"]
prop("P01", "Local time stepping consumes exactly the right data under every schedule",
     "For every time group structure, thread count and interleaving of the scheduler with the workers, each element's local, source and neighboring updates are executed exactly once per time step and in order; "
     "each neighboring update uses its neighbor's time-integrated data over exactly the element's own time interval (whether the neighbor steps equally fast, faster or slower), sources are integrated over exactly that interval, "
     "and no buffer is overwritten before all of its consumers read it. The threads never access shared data concurrently without synchronization.",
     ["schedules", "configurations", "histories"], "all interleavings of scheduler and workers within the preemption bounds, all group structures and step counts within the bounds",
     "the unit tests never run the scheduler, and thread timing on a test machine exercises a handful of interleavings", LTS_FILES + ["src/impl/seismic/solvers/AderDg.inc"],
     [("control flow per time group", "src/impl/seismic/inc/time/man_sched.inc"), ("availability/consumption of predictions", "src/time/Manager.cpp"), ("work packages", "src/parallel/Shared.cpp")],
     "explicit-state model checking of the real program under a controlled scheduler (stateful, full memory states; preemption-bounded for large configurations)",
     "Exhaustive over states within stated configurations; kernels/mesh/config are stand-ins carrying an exact payload; sequentially consistent memory with race detection.")
prop("P02", "The simulation always ends, exactly at the end time, with stable steps",
     "For every end time, synchronization interval, wave field interval and group structure, the time loop terminates under every fair schedule: no reachable state is deadlocked or cut off from completion. "
     "All elements arrive at exactly each synchronization point and at exactly the end time, and no element ever takes a step larger than its time group's stable step.",
     ["schedules", "inputs", "configurations"], "all end times/intervals on a grid, all interleavings within the preemption bounds",
     "termination and deadlock freedom are properties of all schedules; the time manager and the time groups are not built by the unit tests", LTS_FILES + ["src/main.cpp"],
     [("number and length of steps up to synchronization", "src/time/TimeGroupStatic.cpp"), ("synchronization loop", "src/main.cpp"), ("finishing of groups and workers", "src/time/Manager.cpp")],
     "explicit-state model checking of the real program under a controlled scheduler, including reachability of termination from every state",
     "Exhaustive within the stated grid and preemption bounds.")
prop("P03", "Distributed runs exchange exactly the right data under every message timing",
     "For every distribution of elements over ranks and every timing of the messages (each send and receive completing at any admissible moment, eagerly or synchronously, ranks running arbitrarily ahead of or behind each other), "
     "each neighboring update across a rank boundary uses the remote element's time-integrated data over exactly its own time interval. No send buffer is overwritten while its message is in flight, no receive buffer is touched before its message "
     "arrived or reposted before it was consumed, sends and receives match in order, tag and size, no message is left over at a synchronization point or at the end, only the main thread calls MPI, and the run always terminates.",
     ["schedules", "configurations", "histories"], "all rank interleavings and message completion orders within the preemption bounds, all distributions within the bounds",
     "the unit tests are built without MPI and never run the time manager with remote neighbors", ["src/parallel/MpiRemix.cpp", "src/parallel/Distributed.cpp", "src/impl/seismic/inc/time/man_sched.inc", "src/impl/seismic/steps.inc", "src/time/Manager.cpp"],
     [("nonblocking messages per channel", "src/parallel/MpiRemix.cpp"), ("send/receive control flow", "src/impl/seismic/inc/time/man_sched.inc"), ("buffer layout and matching of less-than channels", "src/parallel/Distributed.cpp")],
     "explicit-state model checking of the real MPI program (all ranks in one state) under a controlled scheduler with a nondeterministic MPI model",
     "Exhaustive within the stated configurations and preemption bounds (one thread per rank); MPI is a model.")
prop("P06", "Preprocessed communication structure pairs every inter-partition face",
     "For every mesh, partitioning and time grouping, each face between two partitions is sent exactly once by both sides, in the channel of its two time groups; channels are reported once, with the correct size. "
     "The i-th face received through a channel is the neighbor of the i-th face sent on the other side. The element counts per partition, region (inner, send) and time group match.",
     ["inputs", "configurations"], "all adjacency graphs, partitionings, time groups and face numberings within the bounds",
     "the tests check a single hand-written mesh with three partitions", ["tools/edge_v/src/mesh/Communication.cpp"],
     [("channels, message order and region sizes", "tools/edge_v/src/mesh/Communication.cpp")],
     "bounded exhaustive enumeration of partitioned meshes on the real code against a reference and the cross-partition matching",
     "Exhaustive within the stated bounds; two elements share at most one face.")
prop("P08", "Mesh connectivity and geometry are right for every numbering",
     "However vertices, elements and the elements' local vertices are numbered in the input mesh, EDGE-V's mesh interface provides every face exactly once, with its two elements (or its periodic partner) and its physical groups; elements follow the "
     "solver's reference elements (counter-clockwise vertices, matching faces and neighbors), the ids of adjacent faces and vertices are the ones the neighbor uses, and "
     "volumes, in-diameters, centroids, outward normals and right-handed tangents are those of the geometry.",
     ["inputs", "configurations"], "all numberings of small meshes of all element types within the bounds, periodic boundaries in all combinations of directions",
     "the tests check single elements and a few hand-picked orders; normalization depends on how ids and coordinates are related", ["tools/edge_v/src/mesh/Mesh.cpp", "tools/edge_v/src/geom/Geom.cpp", "tools/edge_v/src/geom/Tet4.cpp", "tools/edge_v/src/io/Gmsh.cpp"],
     [("faces, adjacency, periodic boundaries, normalization", "tools/edge_v/src/mesh/Mesh.cpp"), ("element types' normalization and geometry", "tools/edge_v/src/geom/Geom.cpp"), ("reading through gmsh", "tools/edge_v/src/io/Gmsh.cpp")],
     "bounded exhaustive enumeration of numberings of small meshes on the real code (through the gmsh library) against an independent reference",
     "Exhaustive within the stated bounds; gmsh is trusted; periodic directions are at least three cells wide.")
prop("P07", "Partitioning and reordering keep the mesh and group it for the solver",
     "METIS is handed exactly the mesh's dual graph, weighted by update and communication frequencies. For every partitioning it may return, the elements are reordered by partition, region (inner before send) and time group; "
     "no element is lost, duplicated or changed, and the counts per partition, region and time group are those of the reordered mesh.",
     ["inputs", "configurations"], "all partitionings and time groupings of small meshes of all element types, several numberings",
     "the partitioner's test needs a mesh file which is not present and only checks the range of the result", ["tools/edge_v/src/mesh/Partition.cpp", "tools/edge_v/src/mesh/Partition.h", "tools/edge_v/src/io/Gmsh.cpp"],
     [("dual graph, weights and priorities", "tools/edge_v/src/mesh/Partition.cpp"), ("reordering", "tools/edge_v/src/io/Gmsh.cpp")],
     "bounded exhaustive enumeration of partitionings (nondeterministic METIS stand-in) and time groups on the real code",
     "Exhaustive within the stated bounds; gmsh is trusted, METIS is nondeterministic; partitions are non-empty.")
prop("P10", "EDGE-V's annotations reach the solver unchanged and keep their meaning",
     "Everything EDGE-V stores in a partition's annotation file (element counts of the time groups, relative time steps, communication structure, send and receive element-face pairs, ids of remote neighbors, element data) is read back bit-identically, for all supported types and values. "
     "When the solver loads a partition: its element layout is the inner regions of all time groups followed by the send regions, without gaps; every element and face is marked with the relation (equal, less, greater) of its time step to that of the face-neighbor, also if another partition owns the neighbor, "
     "and with equal at domain boundaries; the ids describing how a neighbor sees a shared face are those of the global mesh for local and remote neighbors; boundary conditions and other bits of the sparse types are preserved.",
     ["inputs", "configurations"], "all time groupings and partitionings of small meshes of all element types; all value sequences within the bounds",
     "the tests of the loader cover a single hand-written configuration of the LTS types; no test reads annotations which EDGE-V wrote", ["src/mesh/EdgeV.cpp", "src/data/EntityLayout.cpp", "tools/edge_v/src/io/Hdf5.cpp", "tools/edge_v/src/main.cpp"],
     [("loader, LTS types and layout", "src/mesh/EdgeV.cpp"), ("regions", "src/data/EntityLayout.cpp"), ("HDF5", "tools/edge_v/src/io/Hdf5.cpp"), ("writing of annotations", "tools/edge_v/src/main.cpp")],
     "bounded exhaustive enumeration of annotations, time groupings and partitionings through real files on the real code",
     "Exhaustive within the stated bounds; the partition-local mesh files are written by the harness (EDGE-V relies on a patched gmsh for splitting the mesh); indices below 2^63.")
prop("P15", "Shallow water steps conserve water, keep lakes at rest and dry cells dry",
     "For every state of the cells (sub- and supercritical flow, wet and dry, varying bathymetry), every boundary condition and orientation of the faces, a finite volume step of the shallow water solver is the one of the f-wave method: "
     "water is neither created nor lost except through outflow boundaries, a lake at rest stays at rest, dry cells never change and reflect the water of their neighbors, fused runs do not influence each other, ranges of faces and elements can be processed separately, "
     "and the time step respects the CFL limit of every cell, run and direction.",
     ["inputs", "configurations"], "all states from finite sets of heights, velocities and bathymetries on small meshes",
     "the only test checks the net-updates of a single Riemann problem", ["src/impl/swe/solvers/FiniteVolume.hpp", "src/impl/swe/solvers/Fwave.hpp"],
     [("net-updates, dry cells, boundaries, update, time step", "src/impl/swe/solvers/FiniteVolume.hpp"), ("f-wave solver", "src/impl/swe/solvers/Fwave.hpp")],
     "bounded exhaustive enumeration of cell states on the real code against a reference solver and invariants",
     "Exhaustive within the stated bounds (finite sets of values); one time step.")
prop("P17", "Face data reaches the other side of every inter-partition face",
     "For every mesh, partitioning and time grouping, the communication layer which is initialized with EDGE-V's communication structure provides disjoint send and receive buffers for exactly the element-face pairs with a remote neighbor, sized for their time-step relation; over cycles of local time stepping, what an element writes "
     "for a face arrives, complete and at its step, at the element on the face's other side, and nowhere else; sends and receives count as finished exactly when their messages are; raw per-face and per-channel data is exchanged accordingly, and each distributed point is claimed by exactly one rank, which has the minimum.",
     ["inputs", "configurations"], "all partitioned and time-grouped adjacency graphs within the bounds",
     "the tests check the initialization of one rank for one hand-written structure", ["src/parallel/Distributed.cpp", "src/parallel/MpiRemix.cpp", "tools/edge_v/src/mesh/Communication.cpp"],
     [("buffers, messages, synchronization, assignment of points", "src/parallel/Distributed.cpp"), ("sends and receives", "src/parallel/MpiRemix.cpp"), ("communication structure", "tools/edge_v/src/mesh/Communication.cpp")],
     "bounded exhaustive enumeration of communication structures on the real code of all ranks on a message-matching MPI stand-in",
     "Exhaustive within the stated bounds; message timings are the subject of P03; MPI back end only (GASPI is not available offline).")
prop("P18", "EDGEcut's six surfaces form one closed, outward-oriented, conforming boundary",
     "For every rectangular grid of surface points in any order (with noise below the tolerance in x), target depth below the surface and number of coarsening levels, EDGEcut either rejects a grid which can not be coarsened as requested (number of cells not divisible, overlapping coarse layers) or writes six OFF files "
     "whose counts match their contents and whose triangles, joined by coordinates, form a closed surface: every edge belongs to exactly two triangles which traverse it in opposite directions, no triangle is degenerate and all point out of the domain. The top has every input point at its coordinates, is fully resolved in the interior "
     "and coarsened towards the boundary by the requested factor; the sides extrude the coarse boundary points in equidistant steps to the target depth, which are not larger than the smallest coarse horizontal spacing.",
     ["inputs", "configurations"], "all grids, surfaces, orders of points, levels and depths within the bounds",
     "the unit test compares one small grid's files with stored text, without gluing the surfaces", ["tools/edge_cut/src/mesh/Extrude.cpp", "tools/edge_cut/src/main.cpp", "tools/edge_cut/src/io/Config.cpp"],
     [("triangulation with coarsening", "tools/edge_cut/src/mesh/Extrude.cpp"), ("derivation of the grid and extrusion", "tools/edge_cut/src/mesh/Extrude.cpp"), ("program", "tools/edge_cut/src/main.cpp")],
     "bounded exhaustive enumeration of grids on the real program with a topological oracle on its output files",
     "Exhaustive within the stated bounds.")
prop("P20", "A seismic time step equals the ADER-DG scheme of the wave equations",
     "For every affine element, material, numbering of its neighbors, kind of faces and relation of time steps, a time step of the seismic solver changes the degrees of freedom as the ADER-DG scheme of the elastic or viscoelastic wave "
     "equations prescribes: Cauchy-Kowalevski predictor, volume term, and fluxes of the exact Riemann solution at interior and periodic faces, the free surface and outflow boundaries. Neighbors with half or twice the time step contribute their "
     "solution over exactly the shared time; neighbors in other ranks contribute as local ones; fused simulations do not influence each other.",
     ["inputs", "configurations"], "all faces, numberings, boundary kinds, time step relations, materials and (by linearity) all states within the bounds",
     "the unit tests compare single kernels with stored values for one configuration each and never run a complete update against the equations",
     ["src/impl/seismic/solvers/AderDg.hpp", "src/impl/seismic/solvers/AderDgInit.hpp", "src/impl/seismic/kernels/*.hpp", "src/impl/seismic/setups/Elasticity.cpp", "src/dg/TimePred.hpp"],
     [("local and neighboring updates, LTS and communication buffers", "src/impl/seismic/solvers/AderDg.hpp"), ("star matrices and flux solvers", "src/impl/seismic/solvers/AderDgInit.hpp"), ("Godunov solvers", "src/impl/seismic/setups/Elasticity.cpp"), ("predictor, volume and surface kernels", "src/impl/seismic/kernels")],
     "bounded exhaustive enumeration of update histories on the real solver against an independent quadrature-based scheme, complete in the states by enumeration of a basis",
     "Exhaustive within the stated bounds; the known sign defect of the viscoelastic predictor is recorded in known-findings.json and the deviating scheme is the only other behaviour accepted.")
prop("P21", "An advection time step equals the upwind ADER-DG scheme",
     "For every affine element of the five element types, advection speed, numbering of the neighbors, kind of faces and relation of time steps, a time step of the advection solver changes the degrees of freedom as the ADER-DG scheme with upwind "
     "fluxes prescribes, neighbors with half or twice the time step contribute exactly the shared time, remote neighbors contribute as local ones, outflow boundaries let nothing in and fused simulations do not influence each other; "
     "the time step statistics are those of the CFL condition.",
     ["inputs", "configurations"], "all faces, numberings, boundary kinds, time step relations, speeds and (by linearity) all states within the bounds",
     "only the time predictor has a unit test; fluxes, boundaries, communication and local time stepping are never tested",
     ["src/impl/advection/solvers/AderDg.hpp", "src/impl/advection/solvers/common.hpp", "src/impl/advection/kernels/*.hpp"],
     [("local and neighboring updates", "src/impl/advection/solvers/AderDg.hpp"), ("flux solvers and time steps", "src/impl/advection/solvers/common.hpp"), ("kernels", "src/impl/advection/kernels")],
     "bounded exhaustive enumeration of update histories on the real solver against an independent quadrature-based scheme, complete in the states by enumeration of a basis",
     "Exhaustive within the stated bounds.")
prop("P22", "The advection program consumes exactly the data of the step it computes",
    "For every mesh, time group structure, distribution to ranks and schedule, the advection program runs every element through every time step exactly once, terminates at the end time without deadlock, and every update consumes exactly the "
    "predictions of its own and its neighbors' step: none that is stale, partially written, of another half step or still in flight, whether the neighbor is in the same time group, a slower or faster one, or in another rank.",
    ["schedules", "histories", "configurations"], "all interleavings of scheduler, communication and workers, message completion orders and time group structures within the bounds",
    "unit tests execute no time loop at all; the control flow differs from the seismic one and is decided at run time by concurrent status flags",
    ["src/impl/advection/inc/time/man_sched.inc", "src/impl/advection/inc/time/tgs_steps.inc", "src/impl/advection/solvers/AderDg.hpp", "src/time/Manager.cpp", "src/time/TimeGroupStatic.cpp", "src/parallel/Shared.cpp", "src/parallel/MpiRemix.cpp"],
    [("scheduling conditions", "src/impl/advection/inc/time/man_sched.inc"), ("steps of a time group", "src/impl/advection/inc/time/tgs_steps.inc"), ("time groups", "src/time/TimeGroupStatic.cpp"), ("messages", "src/parallel/MpiRemix.cpp")],
    "explicit-state model checking of the real program under a controlled scheduler with a message model",
    "Exhaustive within the stated configurations and preemption bounds.")
prop("P23", "Attenuation realizes the requested quality factors and phase velocities",
    "For every number of relaxation mechanisms, frequency band, pair of quality factors, material, dimension and precision, the anelastic set-up describes a causal isotropic medium whose P and S phase velocities at the central frequency are the given ones "
    "and whose inverse quality factors are the least squares fit of the constant target at the logarithmically spaced frequencies of the band; sparse and dense versions are the same, and the anelastic star matrices yield the strain rate for every Jacobian.",
    ["inputs", "configurations"], "all combinations of mechanisms, frequencies, quality factors and materials within the bounds; all Jacobians by linearity",
    "the unit tests compare with stored numbers for one or two settings and never evaluate the resulting attenuation",
    ["src/impl/seismic/setups/ViscoElasticity.cpp", "src/impl/seismic/setups/ViscoElasticity.h"],
    [("fit, elastic parameters, star matrices", "src/impl/seismic/setups/ViscoElasticity.cpp"), ("frequencies and source matrices", "src/impl/seismic/setups/ViscoElasticity.h")],
    "bounded exhaustive enumeration of the real set-up routines against the frequency response they must have",
    "Exhaustive within the stated bounds.")
prop("P24", "Points are located in the closest element, at the right coordinates",
    "For every valid element of the five types and every point: the point is classified as inside, on a face or outside; it is projected to the closest point of the element, and left alone inside; mappings to and from the reference element and their Jacobians "
    "are exact inverses; the coordinates of a point on a shared face agree for both elements in every orientation. In every mesh, receivers and sources are assigned to exactly one element, one which is closest, and domains contain exactly the intersection of their half spaces.",
    ["inputs", "configurations"], "all points of a lattice against all elements, face pairs, orientations, meshes and domains within the bounds",
    "unit tests locate a handful of points in one element each; degenerate positions (faces, edges, vertices, outside near obtuse angles) are not covered",
    ["src/linalg/Geom.hpp", "src/linalg/Mappings.hpp", "src/linalg/Shape.hpp", "src/linalg/HalfSpace.hpp", "src/linalg/Domain.hpp", "src/data/SparseEntities.hpp"],
    [("inside and closest points", "src/linalg/Geom.hpp"), ("mappings", "src/linalg/Mappings.hpp"), ("assignment of points to elements", "src/data/SparseEntities.hpp"), ("domains", "src/linalg/Domain.hpp")],
    "bounded exhaustive enumeration of elements and points on lattices on the real routines against exact geometry",
    "Exhaustive within the stated bounds.")
prop("P25", "Initial values are projected exactly; quadrature and bases are exact", "For every supported element type, order and precision, the quadrature rules (physical and reference elements, faces, all neighbouring face orientations) integrate polynomials up to their "
     "order exactly with positive weights and sit at the documented points; the modal basis is orthogonal, evaluated and differentiated consistently; the initial degrees of freedom are the L2 projection of the user's expression for every element of the given range, quantity and fused run "
     "(reproducing polynomials of the basis, touching nothing outside of the range); the reported L1, L2 and Linf error norms are those of the difference to the reference expression.",
     ["inputs"], "all monomials up to the guaranteed degree, all modes, quadrature points, faces, options, quantities, fused runs and element ranges for every element type and the listed orders and precisions",
     "unit tests compare a few tabulated values of single elements and orders; a wrong point ordering, scaling or index shows only in some order, mode, orientation or fused run",
     ["src/setups/InitialDofs.hpp", "src/dg/Basis.cpp", "src/dg/QuadraturePoints.h", "src/dg/QuadratureEval.hpp"],
     [("InitialDofs::dg, InitialDofs::err", "src/setups/InitialDofs.hpp"), ("Basis::qpts2modal, evalBasis, modal2ptval", "src/dg/Basis.cpp"), ("QuadraturePoints::getQpts", "src/dg/QuadraturePoints.h"), ("QuadratureEval::faces, element, evalBasis", "src/dg/QuadratureEval.hpp")],
     "bounded exhaustive enumeration of inputs on the real code (explicit-state model checking of all choices) against independent quadrature", "exhaustive within the bounds; Expression (exprtk) replaced by a stand-in")

prop("P13", "Receivers record every sample once, at its time, from their element",
     "For every sampling interval, buffer fill, time group structure and schedule, each receiver's file holds exactly one row per sampling time from the start to the end of the simulation, in order, with the solution "
     "of the receiver's host element at that time; buffering and flushing neither lose, duplicate nor mix samples, also while other threads write other receivers.",
     ["schedules", "histories", "configurations"], "all interleavings, sampling intervals, buffer sizes and placements within the bounds",
     "the unit tests write a few samples sequentially; flushing happens on the scheduling thread while workers write samples", ["src/io/Receivers.cpp", "src/impl/seismic/steps.inc", "src/impl/seismic/inc/time/man_sched.inc"],
     [("sampling, buffering and flushing", "src/io/Receivers.cpp"), ("flush from the scheduler", "src/impl/seismic/inc/time/man_sched.inc")],
     "explicit-state model checking of the real program under a controlled scheduler with a file model",
     "Exhaustive within the stated configurations and preemption bounds.")

prop("P04", "Work regions are partitioned exactly among the workers, also after balancing",
     "For every region of entities, number of workers, sparse entity pattern and history of measured execution times, the work packages of a region are disjoint, contiguous and cover the region exactly once, initially and after every rebalancing; "
     "each package's sparse offsets are the positions of its first sparse entities. Without usable measurements the work is spread evenly, below the imbalance threshold nothing changes, otherwise the shares follow the measured throughput up to one entity. "
     "A worker always receives its ready package of highest priority, with the right time group, step and id whatever the order of registration, a region counts as finished only when all workers finished, and first-touch initialization covers every value exactly once.",
     ["inputs", "histories", "configurations"], "all region sizes, worker counts, sparse patterns, measured times and operation histories within the bounds",
     "the unit tests balance two hand-written regions with fixed times; the partition must hold for every rounding of the throughput shares", ["src/parallel/LoadBalancing.cpp", "src/parallel/LoadBalancing.h", "src/parallel/Shared.h", "src/parallel/Shared.cpp"],
     [("work packages by throughput", "src/parallel/LoadBalancing.cpp"), ("regions by priority", "src/parallel/Shared.h"), ("status of packages", "src/parallel/Shared.cpp")],
     "bounded exhaustive enumeration of regions, measurements and operation histories on the real code",
     "Exhaustive within the stated bounds; sequential (thread interleavings are explored by P01).")

prop("P12", "Sparse entities are numbered and linked exactly as their flags define",
     "For every assignment of sparse flags, masks and adjacency (including undefined neighbors), the sparse counts, the sparse numbering, sub-region offsets, inheritance, propagation to adjacent entities and the links sparse-to-dense, sparse-to-sparse "
     "and through flat or varying adjacency are exactly those of the definition: an entity is sparse iff all bits of the mask are set, sparse ids count in dense order, undefined or non-sparse partners are marked invalid. Every output entry is written, nothing beyond the output is.",
     ["inputs", "configurations"], "all flags, masks, region splits and adjacency tables within the bounds",
     "the unit tests check one hand-written table per function", ["src/data/SparseEntities.hpp"],
     [("sparse layouts and links", "src/data/SparseEntities.hpp")],
     "bounded exhaustive enumeration of sparse types and adjacencies on the real code against the definition",
     "Exhaustive within the stated bounds.")

prop("P11", "Dynamic memory is complete, aligned, disjoint and released exactly once",
     "For every history of allocations (sizes including zero, alignments, high-bandwidth and huge-page requests, flexible sparse layouts), every returned region has the requested size and alignment, comes from the requested allocator if that is available, does not overlap any other region "
     "and stays valid until the manager is destroyed, when each region is released exactly once by the allocator it came from. Failing allocations are reported. In flexible layouts every entity's base and sparse data lie in order and exactly fill the region, entities without a sparse type have no pointer to it, and the last pointer marks the end.",
     ["histories", "configurations", "inputs"], "all allocation histories, flags and failing requests within the bounds",
     "the unit tests allocate once per type and cannot observe releases, alternative allocators or failures", ["src/data/Dynamic.h", "src/data/Dynamic.cpp", "src/data/common.hpp"],
     [("allocation and release by kind", "src/data/common.hpp"), ("ownership", "src/data/Dynamic.cpp"), ("flexible layouts", "src/data/Dynamic.h")],
     "bounded exhaustive enumeration of allocation histories on the real code with model allocators",
     "Exhaustive within the stated bounds.")

prop("P26", "The shallow water program steps exactly along its elements' times",
     "For every schedule of the scheduling and working threads, the shallow water program computes a face's net-updates only from adjacent elements which have the same time, updates an element only with the net-updates its faces computed for exactly the element's time, updates every element exactly once per step, "
     "never exceeds the stable time step or the end time, brings all elements exactly to every synchronization point and to the end, and always ends. The setup takes bathymetry and displacements from the mesh iff all of them are available for every element (water column: displacement minus bathymetry, at least zero, at rest), "
     "otherwise bathymetry is zero and the initial values are projected, for every element type, precision and number of fused runs.",
     ["schedules", "inputs", "configurations"], "all thread interleavings (up to the preemption bounds), all combinations of mesh data and initial values within the bounds",
     "no test runs the shallow water program's control flow or its setup; the order of the steps depends on the threads' interleaving", ["src/impl/swe/inc/time/man_sched.inc", "src/impl/swe/inc/time/tgs_steps.inc", "src/impl/swe/setup.inc", "src/time/Manager.cpp", "src/time/TimeGroupStatic.cpp", "src/parallel/Shared.cpp"],
     [("control flow", "src/impl/swe/inc/time/man_sched.inc"), ("steps", "src/impl/swe/inc/time/tgs_steps.inc"), ("bathymetry, initial values and work regions", "src/impl/swe/setup.inc")],
     "explicit-state model checking of the real program under a controlled scheduler; bounded exhaustive enumeration of the setup's inputs",
     "Exhaustive within the stated configurations and preemption bounds.")

prop("P27", "Wave field output holds every printed element's data of every written step",
     "For every element type, number of fused runs, selection of elements by sparse type, output type, path, rank and history of writes (also by several writers), exactly one file per write exists afterwards, named by path, rank and step; each is a valid VTK file "
     "with the mesh's vertices, the connectivity and cell type of the printed elements (those with all bits of the selected sparse type, in order) and, for every quantity and fused run, the mean values of that step. Without an output type, nothing is written.",
     ["inputs", "histories", "configurations"], "all selections, types, histories and placements within the bounds",
     "no unit test writes wave fields; which elements are printed, the order of variables of fused runs and repeated writes are visible in the files only", ["src/io/WaveField.cpp", "src/io/Vtk.cpp", "src/io/Vtk.h", "src/io/FileSystem.hpp", "submodules/visit_writer/visit_writer.cpp"],
     [("selection of elements, file names", "src/io/WaveField.cpp"), ("buffers and variables", "src/io/Vtk.cpp"), ("files", "submodules/visit_writer/visit_writer.cpp")],
     "bounded exhaustive enumeration of selections and histories of writes on the real writer with real files, read by an independent parser", "Exhaustive within the stated bounds.")

prop("P28", "Configuration files are read as written, missing settings get their defaults",
     "For every well-formed configuration of the solver, EDGE-V or EDGE-cut, every setting the program uses (mesh, boundaries, sparse types, expressions of all fused runs, intervals, outputs, receivers, velocity model, attenuation, point sources, rupture setups, partitions, time groups, "
     "refinement, file names) equals the value written in the file, independent of the order of elements, comments, unknown elements, and whether text is escaped; repeated elements are kept in order and completely; settings which are not given have their declared defaults; domains contain the points in all of their half spaces.",
     ["inputs", "configurations"], "all combinations of given and missing settings by section, styles and build configurations within the bounds",
     "the unit tests don't parse complete configurations; dropping or mixing up a setting shows only if it is combined with others, repeated or missing", ["src/io/Config.cpp", "src/io/Config.h", "src/impl/seismic/io/Config.cpp", "tools/edge_v/src/io/Config.cpp", "tools/edge_v/src/io/Config.h", "tools/edge_cut/src/io/Config.cpp"],
     [("solver", "src/io/Config.cpp"), ("domains", "src/io/Config.h"), ("seismic setups", "src/impl/seismic/io/Config.cpp"), ("EDGE-V", "tools/edge_v/src/io/Config.cpp"), ("EDGE-cut", "tools/edge_cut/src/io/Config.cpp")],
     "bounded exhaustive enumeration of configurations on the real parsers", "Exhaustive within the stated bounds.")

prop("P29", "Matrix kernels and sparse formats represent exactly the given matrices",
     "For every matrix, sparsity pattern and sub-matrix, the coordinate, compressed-row and compressed-column forms hold exactly the entries above the tolerance, sorted, with consistent pointers; fill-in for fused-multiply-add only adds explicit zeros; "
     "transposes, non-zero blocks, determinants and inverses match their definitions. Products equal alpha A B + beta C for all sizes, leading dimensions and numbers of fused runs, whichever operand carries the runs; padding is neither read nor written and old output is ignored if beta is zero.",
     ["inputs", "configurations"], "all patterns, sizes, strides and parameters within the bounds",
     "the unit tests convert and multiply a few hand-written matrices; wrong strides or pointers show only for certain patterns, sub-matrices, strides or fused runs", ["src/linalg/Matrix.h", "src/data/MmVanilla.hpp"],
     [("formats, determinants, products", "src/linalg/Matrix.h"), ("kernels by groups", "src/data/MmVanilla.hpp")],
     "bounded exhaustive enumeration of patterns and parameters on the real routines", "Exhaustive within the stated bounds.")

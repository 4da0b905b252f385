"""The single source of properties.jsonl and MANIFEST.json (see gen.py) and of
what check.py runs for each property."""

PROPS = {}


def P(pid, title, statement, over, text, why, files, mechanism, harness,
      bounds, time=(60, 1500), assumptions=(), state=None, ranks=None,
      share=None):
    PROPS[pid] = dict(title=title, statement=statement, over=over, text=text,
                      why=why, files=files, mechanism=mechanism,
                      harness=harness, bounds=bounds, time=time,
                      assumptions=list(assumptions), state=state or [],
                      ranks=ranks or {}, share=share or {})


P("P01", "Global and hybrid move deliver every particle once and intact",
  "After a global move or hybrid move on any number of MPI ranks every "
  "particle exists exactly once, on the rank that owns the cell containing "
  "its position (the rank requested for it where one is requested "
  "explicitly), and every component of every property has the value it had "
  "before, whichever order messages and ranks progress in. Particles that "
  "stay on their rank are unchanged, and per-cell occupancies agree on host "
  "and device with the stored data on every rank; the cell move then places "
  "each particle in the local cell containing its position.",
  ["inputs", "schedules", "configurations"],
  "all assignments of a bounded number of particles to destination "
  "cells/ranks, all rank interleavings up to a deviation bound, all bounded "
  "decompositions (1-4 ranks)",
  "The test suite runs on one rank, so no particle is ever sent; even with "
  "more ranks a run samples one random configuration and one schedule.",
  ["include/neso_particles/global_move.hpp", "include/neso_particles/global_move_exchange.hpp",
   "src/packing_unpacking.cpp", "src/departing_particle_identification.cpp",
   "src/global_mapping.cpp", "src/mesh_hierarchy.cpp", "src/cell_dat_move.cpp",
   "include/neso_particles/cell_dat_compression.hpp",
   "src/particle_group.cpp"],
  [{"file": "include/neso_particles/global_move.hpp", "symbol": "GlobalMove::move",
    "what": "identify, pack, exchange, unpack, compress"},
   {"file": "src/particle_group.cpp", "symbol": "ParticleGroup::hybrid_move",
    "what": "composition of global move, cell binning and local move"}],
  ["p_move"], "1-4 ranks; 1-4 particles per rank; every destination "
  "assignment; rank order forward and reverse, up to 1 (quick) or 2 "
  "(thorough) schedule deviations", time=(45, 1500))

P("P02", "Neighbour (local) move delivers every particle once and intact",
  "When particles are sent to neighbouring ranks with the local move, for any "
  "directed neighbour relation, every particle arrives exactly once on the "
  "rank it is addressed to with all property components unchanged, particles "
  "with no destination stay, and no rank deadlocks. With the Cartesian mesh "
  "halo stencil, a particle in a cell owned or in the halo of the rank is "
  "mapped to the owning rank and any other particle is marked as unmapped.",
  ["inputs", "schedules", "configurations"],
  "all directed neighbour graphs on 2-4 ranks, all destination assignments, "
  "rank interleavings up to a deviation bound",
  "Tests run on one rank and therefore never send a particle to a neighbour; "
  "asymmetric neighbour relations and message orders are never exercised.",
  ["include/neso_particles/local_move.hpp",
   "src/cartesian_mesh.cpp", "src/packing_unpacking.cpp",
   "src/departing_particle_identification.cpp"],
  [{"file": "include/neso_particles/local_move.hpp", "symbol": "LocalMove::move",
    "what": "count exchange over RMA window, point-to-point data exchange"},
   {"file": "src/cartesian_mesh.cpp",
    "symbol": "CartesianHMeshLocalMapperT::map",
    "what": "cell to rank lookup over owned and halo cells"}],
  ["p_local"], "2-4 ranks; every neighbour graph; up to 4 particles per rank; "
  "rank order forward and reverse, up to 1 (quick) or 2 (thorough) schedule "
  "deviations", time=(45, 1500))

P("P03", "Particle group contents follow every sequence of operations",
  "After any sequence of adding particles (from host sets, product matrices, "
  "descendant products, other groups or sub groups, with properties missing "
  "in the source set to zero), removing particles, clearing, adding and "
  "removing properties, moving between cells and writing in loops, the group "
  "holds exactly the particles and values the sequence describes, in the "
  "cells it describes. Host and device occupancies, offsets, totals and "
  "per-property occupancies all agree, and reading back any particles or "
  "cells returns those values.",
  ["inputs", "histories"],
  "all sequences of 15 operations with 1-4 argument patterns each, up to "
  "depth 3 (quick) or 4 (thorough), from an empty and from a loaded group",
  "Tests call each operation once or twice from a fixed start; stale caches "
  "and bookkeeping errors need particular successions of operations.",
  ["src/particle_group.cpp", "include/neso_particles/particle_group.hpp",
   "include/neso_particles/particle_dat.hpp", "src/particle_dat.cpp",
   "include/neso_particles/containers/cell_dat.hpp",
   "src/particle_group_pointer_map.cpp",
   "include/neso_particles/cell_dat_compression.hpp",
   "src/cell_dat_move.cpp", "include/neso_particles/particle_remover.hpp"],
  [{"file": "src/particle_group.cpp",
    "symbol": "ParticleGroup::add_particles_local",
    "what": "insertion of particles and occupancy bookkeeping"},
   {"file": "src/particle_group.cpp",
    "symbol": "ParticleGroup::remove_particles",
    "what": "removal through the layer compressor"}],
  ["p_group"], "4 cells; 15 operations; depth 3 (quick) / 4 (thorough)",
  time=(60, 1800))

P("P04", "Particle loops visit exactly the requested particles once",
  "A particle loop (over a group, a sub group, a cell or a range of cells, "
  "created once or re-executed, submitted and waited separately) calls its "
  "kernel exactly once for every particle of the iteration set that exists "
  "at execution time and for nothing else, with the cell, layer, local and "
  "loop indices of that particle, and its reads and writes reach exactly the "
  "components of that particle's properties. This holds for every occupancy, "
  "work-group size, binning parameter and order in which work items run.",
  ["inputs", "configurations", "schedules"],
  "all cell occupancies in a bounded set, all iteration sets, all loop sizes "
  "and binning parameters, several work item orders",
  "Tests run one loop size on random occupancies; blocks at the edge of a "
  "cell, empty cells and stale iteration sets need specific combinations.",
  ["include/neso_particles/loop/particle_loop.hpp",
   "include/neso_particles/loop/particle_loop_base.hpp",
   "include/neso_particles/loop/particle_loop_index.hpp",
   "include/neso_particles/loop/particle_loop_iteration_set.hpp",
   "include/neso_particles/particle_sub_group/particle_loop_sub_group.hpp",
   "include/neso_particles/loop/pli_particle_dat.hpp",
   "src/loop/particle_loop_iteration_set.cpp"],
  [{"file": "include/neso_particles/loop/particle_loop.hpp",
    "symbol": "ParticleLoop::submit", "what": "launch over iteration set"},
   {"file": "src/loop/particle_loop_iteration_set.cpp",
    "symbol": "ParticleLoopBlockIterationSet::get_all_cells",
    "what": "blocks covering the occupied layers of each cell"}],
  ["p_loop"], "up to 5 cells, occupancies 0-9, local sizes 1-8, 1-16 bins",
  time=(60, 900))

P("P05", "Loop containers accumulate, gather and scatter exactly",
  "Containers passed to particle loops (LocalArray, NDLocalArray, "
  "GlobalArray, CellDatConst, local memory, SymVector, CellInfoNPart) give "
  "each particle the element it indexes; concurrent adds, minima, maxima and "
  "reductions lose and duplicate no contribution whatever the work item "
  "schedule; each atomic fetch-add returns a distinct old value; a "
  "GlobalArray holds the sum over all ranks on every rank; local memory is "
  "private to its work item; get, set and fill round-trip.",
  ["inputs", "schedules", "configurations"],
  "all element values in a bounded set, all access modes, all work item "
  "interleavings at atomics up to a deviation bound, 1-3 ranks",
  "A lost update needs a particular interleaving of atomics; cross-rank "
  "reductions are never run by the single rank tests.",
  ["include/neso_particles/containers/local_array.hpp",
   "include/neso_particles/containers/nd_local_array.hpp",
   "include/neso_particles/containers/global_array.hpp",
   "include/neso_particles/containers/cell_dat_const.hpp",
   "include/neso_particles/containers/local_memory_block.hpp",
   "include/neso_particles/containers/local_memory_interlaced.hpp",
   "include/neso_particles/containers/sym_vector.hpp",
   "include/neso_particles/loop/particle_loop_reduction.hpp",
   "include/neso_particles/loop/cell_info_npart.hpp",
   "include/neso_particles/device_functions.hpp"],
  [{"file": "include/neso_particles/containers/cell_dat_const.hpp",
    "symbol": "CellDatConst", "what": "per-cell matrices in loops"},
   {"file": "include/neso_particles/containers/global_array.hpp",
    "symbol": "GlobalArray", "what": "rank-reduced array"}],
  ["p_cont"], "2-4 cells, occupancies 0-6, 1-3 ranks, 2 (quick) or 3 "
  "(thorough) schedule deviations", time=(60, 900))

P("P06", "Sub groups denote exactly the particles their definition selects now",
  "Whenever a sub group is used (in a loop, to read, move, add or remove "
  "particles, or as the parent of another sub group), after any history of "
  "changes to its group, it contains exactly the particles that its "
  "definition selects at that time, each once: selection kernels, nested "
  "selections, whole groups, copies, cells and cell ranges, the first N or "
  "all but the first N particles per cell, disjoint unions and partitions. A "
  "static sub group keeps its members until the group changes.",
  ["inputs", "histories"],
  "all sequences of group operations up to depth 3 (quick) or 5 (thorough) "
  "between uses of 13 kinds of sub group",
  "Sub group caches are invalidated by version counters; a missed "
  "invalidation needs one specific operation between two uses.",
  ["src/particle_sub_group/particle_sub_group_base.cpp",
   "src/particle_sub_group/sub_group_selector_base.cpp",
   "src/particle_sub_group/sub_group_selector.cpp",
   "src/particle_sub_group/cell_sub_group_selector.cpp",
   "src/particle_sub_group/copy_selector.cpp",
   "src/particle_sub_group/discard_sub_group_selector.cpp",
   "src/particle_sub_group/truncate_sub_group_selector.cpp",
   "src/particle_sub_group/disjoint_union_sub_group_selector.cpp",
   "src/particle_sub_group/particle_group_partition.cpp",
   "src/particle_sub_group/sub_group_selector_exclusive_scan.cpp",
   "include/neso_particles/particle_sub_group/particle_loop_sub_group.hpp"],
  [{"file": "src/particle_sub_group/sub_group_selector.cpp",
    "symbol": "SubGroupSelector", "what": "cells and layers of the selection"},
   {"file": "src/particle_sub_group/particle_sub_group_base.cpp",
    "symbol": "ParticleSubGroup", "what": "version checks, re-selection"}],
  ["p_sub"], "3-4 cells, occupancies 0-5; 13 selector kinds; operation depth "
  "3 (quick) / 5 (thorough)", time=(60, 1500))

P("P07", "Every mesh cell has one agreed owner and consistent indexing",
  "For any claims of mesh hierarchy cells by any number of ranks on any node "
  "layout, every rank reports the same owner for each cell: the highest rank "
  "among those that claimed it with the greatest weight, and none if nobody "
  "claimed it. Linear, tuple and position indexing of cells agree and are "
  "one to one. A Cartesian mesh splits its cells so that each is owned by "
  "exactly one rank and every query (cell owner, owned cells, neighbour "
  "ranks, boundary face cells and their owners, cell geometry) agrees with "
  "that split.",
  ["inputs", "schedules", "configurations"],
  "all weight assignments for 2-4 ranks, all small mesh shapes, subdivision "
  "orders, rank counts, stencil widths and node layouts",
  "Ownership contention only exists with several ranks and the tests run "
  "one; index errors only show for particular shapes.",
  ["src/mesh_hierarchy.cpp", "include/neso_particles/mesh_hierarchy.hpp",
   "src/cartesian_mesh/cartesian_h_mesh.cpp",
   "include/neso_particles/communication/comm_pair.hpp",
   "include/neso_particles/typedefs.hpp"],
  [{"file": "src/mesh_hierarchy.cpp", "symbol": "MeshHierarchy::claim_finalise",
    "what": "two stage reduction of weights then ranks"},
   {"file": "src/cartesian_mesh/cartesian_h_mesh.cpp",
    "symbol": "CartesianHMesh", "what": "decomposition, neighbours, faces"}],
  ["p_mesh"], "2-4 ranks claiming 1-2 cells with 3-4 weights, up to 1 (quick) "
  "or 2 (thorough) schedule deviations; meshes up to 4x4 and 3x3x3 coarse "
  "cells (quick), subdivision 0-2, 1-6 ranks, stencil 0-2", time=(60, 900))

P("P08", "Collective building blocks deliver each contribution exactly once",
  "For every communication pattern, data size (including zero) and rank "
  "order: discovering who will send to a rank finds exactly the ranks that "
  "named it, each with its own integer; the following exchange delivers each "
  "byte to its slot; gathers concatenate in rank order; set broadcasts, "
  "sends and unions keep every element's full value; reversed graph "
  "communicators and neighbour all-to-alls follow the edges; and data "
  "attached to mesh hierarchy cells by any rank can be gathered on any rank, "
  "each object once, however often it is gathered. No call deadlocks.",
  ["inputs", "schedules", "configurations"],
  "all directed graphs on 2-3 ranks (with self and parallel edges), bounded "
  "sizes, all matchings of wildcard receives, rank interleavings up to a "
  "deviation bound",
  "With one rank every pattern is trivial; wildcard receives and zero length "
  "messages need particular arrival orders.",
  ["src/communication/communication_edges_counter.cpp",
   "src/communication/communication_utility.cpp",
   "include/neso_particles/communication/communication_utility.hpp",
   "include/neso_particles/mesh_hierarchy_data/mesh_hierarchy_container.hpp",
   "include/neso_particles/mesh_hierarchy_data/serial_container.hpp"],
  [{"file": "src/communication/communication_edges_counter.cpp",
    "symbol": "CommunicationEdgesCounter::get_remote_ranks",
    "what": "RMA edge count then wildcard receives"},
   {"file": "include/neso_particles/mesh_hierarchy_data/mesh_hierarchy_container.hpp",
    "symbol": "MeshHierarchyContainer::gather",
    "what": "request, size and data exchange"}],
  ["p_comm"], "1-6 ranks; every graph on 2-3 ranks; every wildcard matching; "
  "1 (quick) or 2 (thorough) schedule deviations", time=(60, 900))

P("P09", "Boundary conditions wrap, detect and reflect particles correctly",
  "On a Cartesian mesh: applying periodic boundaries maps every position in "
  "each periodic dimension to its periodic image in [0, extent) and touches "
  "nothing else. Trajectory intersection finds exactly the particles (of the "
  "group or sub group passed) that left the domain, returns each in the "
  "group of the face it first left through with that intersection point, the "
  "inward normal, the boundary group and the id of the face cell hit. "
  "Truncation and reflection place a particle on its path just before the "
  "intersection (never behind its previous position), scale the achieved "
  "time step by the fraction of the path travelled, reflection mirrors the "
  "velocity in the normal, and other particles are unchanged.",
  ["inputs", "configurations"],
  "all start/end point pairs of a grid of interior, boundary and exterior "
  "points, all meshes and face groupings within bounds, all dimensions and "
  "masks, all intersection data of a grid of points, normals and distances",
  "Tests use random trajectories; leaving exactly on a face, through corners, "
  "several extents away, or through ungrouped faces is not sampled.",
  ["src/cartesian_mesh/cartesian_periodic.cpp",
   "src/cartesian_mesh/cartesian_trajectory_intersection.cpp",
   "include/neso_particles/cartesian_mesh/cartesian_trajectory_intersection.hpp",
   "src/boundary/boundary_reflection.cpp", "src/boundary/boundary_truncation.cpp",
   "include/neso_particles/boundary/boundary_truncation.hpp",
   "include/neso_particles/boundary/boundary_reflection.hpp",
   "src/boundary/boundary_interaction_specification.cpp",
   "include/neso_particles/device_functions.hpp"],
  [{"file": "include/neso_particles/cartesian_mesh/cartesian_trajectory_intersection.hpp",
    "symbol": "CartesianTrajectoryIntersection::post_integration_inner",
    "what": "intersection with the faces, sub groups, ephemeral data"},
   {"file": "include/neso_particles/boundary/boundary_truncation.hpp",
    "symbol": "Private::truncate_trajectory", "what": "position and time reset"}],
  ["p_bound"], "22 positions per dimension (about 484 combinations) for the "
  "periodic boundary in 2D and 3D with every mask; 576 (2D) or 1000 (3D) "
  "trajectories on 6 meshes, 4 face groupings; 250 interactions in 1D-3D",
  time=(60, 600))

P("P10", "Boundary surface data reach the owning rank and come back intact",
  "For any ownership of boundary geometry objects and any sequence of "
  "requests extending the exchange pattern, gathering contributions adds, on "
  "the owner, each rank's value for each object it holds exactly once, and "
  "the reverse exchange gives every rank the owner's current value of every "
  "object it holds; the version changes exactly when objects are added. A "
  "function on a boundary group holds after a projection (also with several "
  "contributions, new hits between initialisation and contribution, or ranks "
  "without particles) the sum over all ranks of the contributions per face "
  "cell scaled by the inverse cell width, and evaluating it gives each "
  "particle the value of the face cell it hit.",
  ["inputs", "histories", "schedules", "configurations"],
  "all ownership assignments, all request sequences and all operation "
  "sequences up to the bounds on 1-3 ranks, rank interleavings up to a "
  "deviation bound",
  "On one rank nothing is exchanged; stale patterns and unzeroed staging "
  "entries depend on the history of hits.",
  ["src/boundary/boundary_mesh_interface.cpp",
   "include/neso_particles/boundary/boundary_mesh_interface.hpp",
   "src/cartesian_mesh/cartesian_trajectory_intersection.cpp",
   "src/cartesian_mesh/cartesian_h_mesh_function.cpp",
   "src/algorithms/unseen_value_extractor.cpp"],
  [{"file": "src/boundary/boundary_mesh_interface.cpp",
    "symbol": "BoundaryMeshInterface::extend_exchange_pattern",
    "what": "neighbour graphs and packing maps of both directions"},
   {"file": "src/cartesian_mesh/cartesian_trajectory_intersection.cpp",
    "symbol": "CartesianTrajectoryIntersection::function_project_contribute",
    "what": "staging and accumulation of contributions"}],
  ["p_surf"], "2-3 ranks with 2-3 objects and 1-2 rounds of requests; surface "
  "functions on 1-3 ranks in 2D and 3D, 1-3 steps of 5 kinds with 3-7 "
  "destinations per rank; 1 schedule deviation", time=(90, 1200))

P("P11", "Pair loops visit each listed pair exactly once, in conflict free waves",
  "A pair list describes exactly the pairs it was given: per cell counts, "
  "wave counts, offsets and linear indices are those of the pairs pushed or "
  "set, in any order of push, set, clear and reuse, and pairs of one wave "
  "share no particle, with later pairs of a particle in later waves. A pair "
  "loop executed over all cells, one cell or a cell range runs its kernel "
  "exactly once for each pair of those cells and no other, completes one wave "
  "before the next, presents the data of the right two particles to each "
  "argument (properties, local arrays, loop indices), and "
  "leaves the same result for every order of pairs inside a wave and every "
  "device block size. validate_pair_list accepts a block list exactly when "
  "its waves hold no conflict.",
  ["inputs", "histories", "schedules", "configurations"],
  "all small pair lists, all operation sequences on lists, cell ranges, "
  "block sizes and work item orders up to the bounds",
  "Tests use one fixed list per feature; conflicts between waves show only "
  "under particular work item orders and lists.",
  ["include/neso_particles/pair_loop/particle_pair_loop_cellwise_pair_list.hpp",
   "include/neso_particles/pair_loop/cellwise_pair_list.hpp",
   "include/neso_particles/pair_loop/cellwise_pair_list_host.hpp",
   "src/pair_loop/cellwise_pair_list_simple.cpp",
   "include/neso_particles/pair_loop/particle_pair_loop_args.hpp"],
  [{"file": "src/pair_loop/cellwise_pair_list_simple.cpp",
    "symbol": "CellwisePairListSimple::push_back",
    "what": "wave assignment and device layout"},
   {"file": "include/neso_particles/pair_loop/particle_pair_loop_args.hpp",
    "symbol": "create_global_info", "what": "iteration set of a pair loop"}],
  ["p_pair"], "host lists of up to 4 pairs; sequences of up to 3 (4) list "
  "operations; loops over 1-2 lists of up to 5 particles per cell, all cell "
  "ranges, 3 work item orders; block lists of up to 3 pairs exhaustively",
  time=(120, 1200))

P("P12", "DSMC partitions and pair samplers yield valid, complete collision pairs",
  "A collision cell partition lists, for every mesh cell, collision cell and "
  "species, exactly the layers of the particles with those values, each once, "
  "with matching occupancies, maxima and offsets, also when built repeatedly "
  "and on ranks without particles. Pairs sampled without replacement use each "
  "particle of a collision cell and species at most once, give every "
  "collision cell the requested number of pairs, pair only the two requested "
  "species within one collision cell and never a particle with itself, and "
  "equally spaced samples give every pairing equally often. The NTC sampler "
  "gives every cell the requested number of pairs, drawn from the two "
  "requested sub groups as the samples prescribe, with distinct members and "
  "waves that separate conflicting pairs for every interleaving of the "
  "device's conflict resolution; a list whose sub groups changed is refused. "
  "The all to all schedule of a work group visits every pair exactly once.",
  ["inputs", "histories", "schedules", "configurations"],
  "all assignments of particles to collision cells and species, all grid "
  "samples, all schedules of the conflict resolution up to the bounds",
  "Samplers are random: tests check statistics of one seed; collisions of "
  "samples and the racy wave assignment need particular draws and schedules.",
  ["src/algorithms/dsmc/collision_cell_partition.cpp",
   "src/algorithms/dsmc/pair_sampler_no_replacement.cpp",
   "src/algorithms/dsmc/pair_sampler_ntc.cpp"],
  [{"file": "src/algorithms/dsmc/pair_sampler_ntc.cpp",
    "symbol": "PairSamplerNTC::sample", "what": "drawing and wave assignment"},
   {"file": "src/algorithms/dsmc/collision_cell_partition.cpp",
    "symbol": "CollisionCellPartition::construct",
    "what": "per collision cell maps"}],
  ["p_dsmc"], "2 mesh cells, up to 2 collision cells and 2 species, up to 4 "
  "particles per cell; samples on the grid of all distinguishable values; NTC "
  "with 2-4 pairs, block sizes 2 and 4, all interleavings up to 2 deviations",
  time=(240, 1200))

P("P13", "Kernel random numbers are each drawn once and shortage is reported",
  "Over any sequence of loops of varying extent (whole group, one cell, cell "
  "ranges, sub groups, pair lists) on a changing particle group, a per "
  "particle generator gives every iteration and component of a loop its own "
  "sample drawn for that loop, all samples drawn are used once, and exactly "
  "iterations times components are drawn. An atomic block generator never "
  "hands out a sample twice or a value that was not drawn; while the reads of "
  "a loop fit the requested number of samples every sample is valid, and a "
  "read beyond the available samples is marked invalid and makes the reported "
  "state invalid, which otherwise stays valid, for every interleaving of the "
  "reads. Block sizes, host or device generation and grouping in tuples do "
  "not change this, and a failing device generator is reported.",
  ["inputs", "histories", "schedules", "configurations"],
  "all loop and mutation sequences up to the bounds for all component counts, "
  "block sizes and read patterns, atomic interleavings up to a deviation "
  "bound, two patterns of uninitialised memory",
  "Tests draw fixed amounts once; reuse of left over samples, shortage and "
  "interleaved counter updates depend on the history and the schedule.",
  ["include/neso_particles/containers/rng/host_rng_common.hpp",
   "include/neso_particles/containers/rng/host_per_particle_block_rng.hpp",
   "include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp",
   "include/neso_particles/containers/rng/tuple_rng.hpp",
   "include/neso_particles/containers/rng/kernel_rng.hpp"],
  [{"file": "include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp",
    "symbol": "HostAtomicBlockKernelRNG::impl_pre_loop_read",
    "what": "refilling the used part of the buffer"},
   {"file": "include/neso_particles/containers/rng/host_rng_common.hpp",
    "symbol": "HostRNGGenerationFunction::draw_random_samples",
    "what": "blocked double buffered transfer"}],
  ["p_rng"], "3 cells with up to 10 particles, sequences of 3 (4) operations "
  "of 9 kinds, 0, 1 or 3 components, block sizes 1, 2 and 8192, 5 read "
  "patterns; 2 (3) schedule deviations", time=(90, 1200))

P("P14", "Scans, reductions, transposes and cell wise methods equal their definition",
  "For every array length (including zero), work group size and number of "
  "compute units the exclusive and inclusive scans, their many array forms "
  "and sums, reductions with plus, minimum and maximum, matrix transposes and "
  "the eight element sort give exactly the result of the sequential "
  "definition, write nothing else and have no data race. On a particle group "
  "or any kind of sub group, while particles are added, removed and modified, "
  "cell wise counts, cell wise reductions of one or all components combine "
  "exactly the current members of each cell with the value already in the "
  "addressed element, cell wise broadcasts and copies between ephemeral and "
  "particle properties set exactly the members, element wise kernels see "
  "single values stretched to the output's shape, and an output of the wrong "
  "size is refused.",
  ["inputs", "histories", "schedules", "configurations"],
  "all lengths, shapes, group sizes and operators up to the bounds, all "
  "zero-one inputs of the sort, all occupancies, group kinds and operation "
  "sequences up to the bounds",
  "Tests use one length and the device's default group size; remainders of "
  "blocks, empty cells, kept sub groups and single row matrices need "
  "particular shapes and histories.",
  ["include/neso_particles/algorithms/common.hpp",
   "include/neso_particles/algorithms/cellwise_methods.hpp",
   "include/neso_particles/algorithms/reduce_dat_cellwise.hpp",
   "include/neso_particles/algorithms/particle_data_movement.hpp",
   "include/neso_particles/device_functions.hpp"],
  [{"file": "include/neso_particles/algorithms/common.hpp",
    "symbol": "joint_exclusive_scan", "what": "blocked scan"},
   {"file": "include/neso_particles/algorithms/reduce_dat_cellwise.hpp",
    "symbol": "reduce_dat_components_cellwise",
    "what": "cell wise reductions"}],
  ["p_alg"], "arrays up to 12 (20), up to 3 arrays of 4 (6), matrices up to "
  "5x5 (9x9), group sizes 1 to 16, 1 to 4 compute units; 2 cells with up to 4 "
  "particles, 5 group kinds, 7 output shapes, sequences of 3 (4) operations of "
  "6 kinds; 0-2 schedule deviations", time=(120, 900))

P("P15", "Ephemeral data and symbol vectors follow the properties that exist now",
  "Under every sequence of adding and removing particle properties, adding "
  "and removing ephemeral properties of a sub group (including ones that "
  "shadow a particle property of the same name), modifying the properties a "
  "sub group selects on or unrelated ones, moving particles and using the "
  "group: a loop that names a property by symbol or through a symbol vector "
  "reads and writes the ephemeral property if the sub group has one and "
  "otherwise the current particle property, with its current number of "
  "components; new ephemeral properties are zero; ephemeral properties keep "
  "their values while the sub group is unchanged and cease to exist when its "
  "membership is rebuilt; no other property is altered and nothing outside "
  "the properties is accessed.",
  ["histories", "inputs"],
  "all sequences of 10 operations up to depth 4 (quick) or 5 (thorough) on a "
  "group and 3 kinds of sub group",
  "Caches of device pointers go stale only when a property is removed, "
  "replaced or shadowed between two uses of the same symbol vector.",
  ["src/containers/ephemeral_dats.cpp",
   "include/neso_particles/containers/ephemeral_dats.hpp",
   "include/neso_particles/containers/sym_vector_pointer_cache.hpp",
   "include/neso_particles/containers/sym_vector_impl.hpp",
   "src/particle_group.cpp"],
  [{"file": "include/neso_particles/containers/sym_vector_pointer_cache.hpp",
    "symbol": "SymVectorPointerCache", "what": "pointer cache"},
   {"file": "src/particle_sub_group/particle_sub_group_base.cpp",
    "symbol": "invalidate_ephemeral_dats_if_required",
    "what": "lifetime of ephemeral data"}],
  ["p_eph"], "7 particles in 2 cells, group, selected, whole and static sub "
  "groups; sequences of 4 (5) of 10 operations", time=(60, 900))

P("P16", "Device storage returns what was last stored",
  "Under every bounded sequence of operations, and for all admissible sizes, "
  "the device containers behave as the mathematical container they stand for: "
  "buffers (device, host, shared) keep the common prefix of their contents "
  "under every resize and copy; jagged and constant per-cell matrices return, "
  "cell by cell, element by element, by column or as a whole, synchronously "
  "or asynchronously, the value last written there, report exact row counts, "
  "minima and maxima, keep data when cells grow and reject larger data; "
  "lookup tables and keyed trees find exactly the keys that were inserted "
  "(negative and far apart keys included) with their values; extracting "
  "unseen values returns each new value once; resource pools never hand one "
  "resource to two users and reuse returned ones; device side error flags "
  "report an error iff one was raised; and no access leaves the storage.",
  ["histories", "inputs", "schedules"],
  "all operation sequences up to the bounds on small containers, all key "
  "sets and value arrays up to the bounds",
  "Tests follow one sequence of sizes per container; shrinking, growing from "
  "nothing, empty cells and negative keys appear only in some histories.",
  ["include/neso_particles/device_buffers.hpp",
   "include/neso_particles/containers/cell_dat.hpp",
   "include/neso_particles/containers/cell_dat_const.hpp",
   "include/neso_particles/containers/cell_data.hpp",
   "include/neso_particles/containers/blocked_binary_tree.hpp",
   "include/neso_particles/containers/lookup_table.hpp",
   "include/neso_particles/containers/resource_stack.hpp",
   "include/neso_particles/containers/resource_stack_map.hpp",
   "include/neso_particles/algorithms/unseen_value_extractor.hpp",
   "include/neso_particles/error_propagate.hpp"],
  [{"file": "include/neso_particles/containers/cell_dat.hpp",
    "symbol": "CellDat", "what": "jagged per-cell storage"},
   {"file": "include/neso_particles/device_buffers.hpp",
    "symbol": "BufferBase", "what": "buffer resizing"}],
  ["p_store"], "buffer sequences of depth 3/2 (thorough +1), cell matrices of "
  "2 cells and 2 columns with sequences of 3 (4), trees with sequences of 4 "
  "(5) over 7 keys and widths 1, 2 and 8, tables of up to 3 entries, 4 group "
  "sizes for unseen values, pool histories of 6 (7)", time=(90, 900))

P("P17", "Points, boxes and degrees of freedom of external meshes map exactly",
  "For every bounded configuration: copying degrees of freedom to or from an "
  "external ordering applies exactly the map that was set, in both "
  "directions, and changes nothing else; an overlay mesh assigns every point "
  "to the cell that contains it (identically on host and device), numbers "
  "cells without gaps or repeats, returns every cell a bounding box touches "
  "and none away from it, and is created with enough cells by splitting the "
  "widest dimension; bounding boxes expand to the union; claims on mesh "
  "hierarchy cells are made for exactly the cells a box overlaps, with the "
  "overlap as weight, the largest claim winning; quadrature points added on "
  "any rank are held by the rank that owns them and their values are returned "
  "to the adding rank in the order of adding, for every number of components; "
  "and particles created anywhere and advected to their owners arrive once, "
  "with position and properties unchanged.",
  ["inputs", "histories", "schedules", "configurations"],
  "all permutations, boxes on grids, point sets on up to 3 ranks and rank "
  "schedules up to the bounds",
  "Tests use one ordering, two dimensions and single component values on one "
  "rank; ties at cell boundaries and remotely held points need specific "
  "inputs.",
  ["include/neso_particles/external_interfaces/common/dof_mapper_dg.hpp",
   "include/neso_particles/external_interfaces/common/overlay_cartesian_mesh.hpp",
   "include/neso_particles/external_interfaces/common/bounding_box.hpp",
   "include/neso_particles/external_interfaces/common/local_claim.hpp",
   "include/neso_particles/external_interfaces/common/quadrature_point_mapper.hpp",
   "src/external_interfaces/common", "src/parallel_initialisation.cpp"],
  [{"file": "src/external_interfaces/common/quadrature_point_mapper.cpp",
    "symbol": "QuadraturePointMapper", "what": "points held by other ranks"},
   {"file": "src/external_interfaces/common/overlay_cartesian_mesh.cpp",
    "symbol": "OverlayCartesianMesh", "what": "overlay mesh"}],
  ["p_ext"], "all orderings of up to 4 dofs with sequences of 3-4 (4-5) "
  "operations; overlay meshes of up to 4 / 3x3 / 2x2x2 (3x3x3) cells with all "
  "boxes on a half cell grid; 1-2 boxes on hierarchies of up to 8 cells; up to "
  "3 points per rank at 4 positions on 1-3 ranks; 2 particles per rank on 1-3 "
  "ranks; 0-2 (3) schedule deviations", time=(90, 900))

P("P18", "Geometric predicates, coordinate maps and atomics agree with exact results",
  "For every input on the bounded grids: segment-segment, axis aligned and "
  "segment-rectangle intersections are reported iff they exist in exact "
  "arithmetic (up to the tolerance), with the exact point and proportion; the "
  "orientation of a line does not depend on the order of its end points; "
  "triangle and quadrilateral coordinates, including points on edges and "
  "vertices and degenerate equations, equal the exact ones and invert each "
  "other, and quadrilateral weights are non-negative and sum to one; torus "
  "coordinates invert each other; 3x3 and 4x4 inverses, cross and dot products "
  "equal the exact ones; and atomic add, minimum and maximum (including the "
  "compare-and-swap versions) are linearizable under every interleaving.",
  ["inputs", "schedules"],
  "all end points, vertices and points on small integer grids at three exact "
  "scales, all matrices over small entry sets, all interleavings of 3 (4) "
  "atomic calls up to the deviation bound",
  "Errors sit at ties, edges, zero pivots and particular signs that a few "
  "sampled inputs do not hit.",
  ["include/neso_particles/device_functions.hpp",
   "include/neso_particles/external_interfaces/common/coordinate_mapping.hpp"],
  [{"file": "include/neso_particles/device_functions.hpp",
    "symbol": "line_segment_intersection_2d", "what": "intersections"},
   {"file":
    "include/neso_particles/external_interfaces/common/coordinate_mapping.hpp",
    "symbol": "quad_cartesian_to_collapsed", "what": "quadrilateral inverse"}],
  ["p_geom"], "segments and triangles on 6x6 (8x8) grids, quadrilaterals on "
  "5x5 (7x7) grids with 9x9 points, 3x3 matrices over 5 values, 4x4 over 2 "
  "(3) values, 3 (4) work items with 3 (4) schedule deviations",
  time=(60, 900))

P("P19", "Files contain exactly the particles and cells written, each once",
  "For every distribution of particles over ranks and cells (including ranks "
  "and steps without particles): each H5Part step holds one row per particle "
  "of the group, or of the selected sub group, at the time of the write, every "
  "column of a row belongs to the same particle and each entry is written "
  "exactly once, whatever is moved, removed, modified or closed and reopened "
  "between steps; reading a step back on any number of ranks returns each "
  "particle exactly once with the written values, and the result can seed a new "
  "simulation. A VTKHDF file holds for every rank of its communicator the "
  "points, connectivity, offsets, types and point and cell data that describe "
  "exactly the given cells; a function on the mesh boundary is written with its "
  "value on every boundary cell once; a mesh hierarchy plot draws exactly the "
  "edges of the selected cells.",
  ["inputs", "histories"],
  "all occupancies up to 2 (3) particles per cell on 1-3 ranks, all sequences "
  "of operations between two steps, read back by 1-4 ranks; all assignments of "
  "cell kinds to ranks; all small mesh hierarchies",
  "Offsets and counts that are wrong only for particular distributions over "
  "ranks, empty ranks or empty steps, and rows which mix columns of different "
  "particles.",
  ["include/neso_particles/particle_io.hpp", "src/particle_io.cpp",
   "include/neso_particles/external_interfaces/vtk/vtk.hpp",
   "src/external_interfaces/vtk/vtk.cpp",
   "src/utility_mesh_hierarchy_plotting.cpp"],
  [{"file": "include/neso_particles/particle_io.hpp", "symbol": "write_inner",
    "what": "offsets of the ranks and column-wise writes"},
   {"file": "src/particle_io.cpp", "symbol": "H5Part::read",
    "what": "decomposed reads"},
   {"file": "src/external_interfaces/vtk/vtk.cpp", "symbol": "VTKHDF::write",
    "what": "pieces per rank"}],
  ["p_io"], "1-3 ranks with up to 3 (4) particles per cell and 2 steps with 7 "
  "operations before each; up to 3 cells per rank; hierarchies up to 2x2x2 "
  "with one subdivision", time=(100, 900))

P("P20", "Unstructured meshes: particles reach the cell and rank containing them",
  "On a PETSc DMPlex mesh (triangles, quadrilaterals or both; hexahedra or "
  "tetrahedra) distributed over any number of ranks in any way: after a hybrid "
  "move and a cell move every particle whose position is in the closed domain "
  "exists exactly once, on a rank owning a cell that contains the position, in "
  "that cell, wherever it was before. The mesh wrapper numbers cells and points "
  "consistently (local, PETSc and global indices are mutually inverse, each "
  "global point has one owner, every cell belongs to one rank), and returns the "
  "geometry of the mesh: vertices, averages, bounding boxes of a cell and of the "
  "rank's own cells, volumes, containment, face sets, plotting data. Halo cells "
  "are copies of cells of other ranks with their geometry, owner and index there, "
  "each once, unchanged by serialisation. Sampling helpers create the requested "
  "number of positions, each within the cell reported for it.",
  ["inputs", "configurations"],
  "all small meshes of the enumerated families, all assignments of their cells to "
  "1-3 ranks, all lattice points (inside, on edges, on vertices, on the boundary)",
  "Whether a point on an edge or corner, or near a partition boundary, is found "
  "depends on the shape of the cells and on the partition; tests use one box "
  "mesh, random points and one rank.",
  ["include/neso_particles/external_interfaces/petsc/dmplex_helper.hpp",
   "src/external_interfaces/petsc/dmplex_helper.cpp",
   "src/external_interfaces/petsc/dmplex_interface.cpp",
   "src/external_interfaces/petsc/dmplex_cell_serialise.cpp",
   "src/external_interfaces/petsc/particle_cell_mapping/dmplex_2d_mapper.cpp",
   "src/external_interfaces/petsc/particle_cell_mapping/dmplex_host_mapper.cpp",
   "src/external_interfaces/petsc/dmplex_utility.cpp"],
  [{"file": "src/external_interfaces/petsc/particle_cell_mapping/dmplex_2d_mapper.cpp",
    "symbol": "DMPlex2DMapper::map", "what": "candidate cells and containment"},
   {"file": "src/external_interfaces/petsc/dmplex_interface.cpp",
    "symbol": "DMPlexInterface::create_halos", "what": "halo cells"},
   {"file": "src/external_interfaces/petsc/dmplex_helper.cpp",
    "symbol": "DMPlexHelper", "what": "numbering and geometry"}],
  ["p_dm"], "2x2 quads, each whole or cut along a diagonal, inner vertex moved, 3 "
  "coordinate transformations, 1-3 ranks with every partition by quads plus one "
  "triangle (thorough: by cells); boxes of up to 4 (12) hexahedra or 24 (72) "
  "tetrahedra", time=(400, 1500), ranks={"p_dm": [1, 2, 3]},
  share={1: 1, 2: 2, 3: 2},
  assumptions=["MPI and PETSc are the installed libraries; all ranks take the "
               "same choices in lockstep and message schedules are not varied"])

P("P21", "Trajectories that cross labelled mesh edges are reported with the first crossing",
  "On a 2D DMPlex mesh distributed over any number of ranks in any way, for "
  "every particle passed to BoundaryInteraction2D::post_integration (a group or "
  "a sub group) after pre_integration: if its trajectory crosses an edge with a "
  "label of a boundary group, it is in exactly one of the returned sub groups: "
  "the one of the group of the first such edge, with that group and the global "
  "index of the edge as metadata, the intersection point, and a unit normal "
  "perpendicular to the edge; otherwise it is in none. This holds wherever the "
  "trajectory starts and ends (in the domain, on an edge, outside), however far "
  "it goes, in later steps, for meshes without labelled edges, with the edge on "
  "any rank, for positions with more components than the mesh has dimensions, "
  "and for several interactions used together; with a tolerance edges that are "
  "touched count too. Every requested group has a sub group. The normal mapper "
  "returns the normal of a reported edge and false for edges it does not hold. "
  "Labelling helpers set the label of all edges on the domain boundary (not of "
  "edges between ranks), or of the edges between given pairs of global vertices, "
  "on every rank that has them.",
  ["inputs", "configurations", "histories"],
  "all trajectories between lattice points from a set of moves, on all meshes of "
  "the enumerated families, labellings, groupings and partitions on 1-3 ranks, two "
  "steps",
  "Misses depend on where a trajectory lies relative to edges, corners and cells "
  "of the overlaid hierarchy; tests fire random particles at a square.",
  ["include/neso_particles/external_interfaces/petsc/boundary_interaction/boundary_interaction_common.hpp",
   "include/neso_particles/external_interfaces/petsc/boundary_interaction/boundary_interaction_2d.hpp",
   "src/external_interfaces/petsc/boundary_interaction/boundary_interaction_2d.cpp",
   "src/external_interfaces/petsc/boundary_interaction/boundary_interaction_common.cpp",
   "src/external_interfaces/petsc/dmplex_utility.cpp"],
  [{"file": "src/external_interfaces/petsc/boundary_interaction/boundary_interaction_2d.cpp",
    "symbol": "BoundaryInteraction2D", "what": "distribution of labelled edges"},
   {"file": "include/neso_particles/external_interfaces/petsc/boundary_interaction/boundary_interaction_common.hpp",
    "symbol": "BoundaryInteractionCommon::find_intersections_inner",
    "what": "search of the first intersection"},
   {"file": "src/external_interfaces/petsc/dmplex_utility.cpp",
    "symbol": "label_dmplex_edges", "what": "labels"}],
  ["p_dmb"], "2x2 quads, whole, cut or left out, 3-4 geometries, 4 labellings, 3 "
  "groupings, about 1500 trajectories twice per configuration, 1-3 ranks with "
  "every partition by quads (thorough: by cells)", time=(400, 1500),
  ranks={"p_dmb": [1, 2, 3]}, share={1: 1, 2: 2, 3: 2},
  assumptions=["MPI and PETSc are the installed libraries; all ranks take the "
               "same choices in lockstep and message schedules are not varied",
               "without a tolerance a trajectory that only touches an edge or "
               "passes through a vertex may or may not be reported"])

P("P22", "Fields on unstructured meshes: projection, evaluation and coupling are exact",
  "On a 2D DMPlex mesh distributed over any number of ranks: projecting a particle "
  "property of any number of components from a group or a sub group onto cell "
  "averages (DG order 0) gives in every cell the sum over its particles divided by "
  "the volume of the cell, zero without particles, whatever was projected before; "
  "values set directly or at the quadrature points are those read back, and "
  "evaluation gives every particle of the group the value of its cell and leaves "
  "the others alone. Vertex values (Barycentric order 1) evaluate to the linear or "
  "bilinear interpolation at the position, reproduce linear functions given at any "
  "admissible quadrature points, and are projected as the weighted sums divided "
  "by volume per vertex. Plotting data are the same values. Coupling with another "
  "mesh (DMPlexMeshCouplerDG0) adds exactly the weighted values of all mapped "
  "cells, on all ranks, in either direction, repeatedly, for any map.",
  ["inputs", "configurations", "histories"],
  "all meshes of the enumerated families, partitions on 1-3 ranks, sequences of "
  "component counts, all coupling maps with one source cell per rank and a family "
  "of larger ones",
  "Wrong indexing for several components, stale values, empty cells, sub groups "
  "and ranks without entries are not sampled; tests use one mesh and rank.",
  ["include/neso_particles/external_interfaces/petsc/project_evaluate",
   "src/external_interfaces/petsc/project_evaluate",
   "src/external_interfaces/petsc/dmplex_mesh_coupler_dg0.cpp",
   "src/external_interfaces/common/dof_mapper_dg.cpp",
   "src/external_interfaces/common/quadrature_point_mapper.cpp"],
  [{"file": "src/external_interfaces/petsc/project_evaluate/dmplex_project_evaluate_dg.cpp",
    "symbol": "DMPlexProjectEvaluateDG", "what": "cell averages"},
   {"file": "src/external_interfaces/petsc/project_evaluate/dmplex_project_evaluate_barycentric.cpp",
    "symbol": "DMPlexProjectEvaluateBarycentric", "what": "vertex values"},
   {"file": "src/external_interfaces/petsc/dmplex_mesh_coupler_dg0.cpp",
    "symbol": "DMPlexMeshCouplerDG0", "what": "transfer both ways"}],
  ["p_dmf"], "2x2 quads, whole, cut or left out, 2-3 geometries, with or without "
  "points, 2-4 component sequences of 3 steps, groups and sub groups; couplings to "
  "2x2 quads with all subsets of cells from every rank, 1-3 ranks",
  time=(300, 1500), ranks={"p_dmf": [1, 2, 3]}, share={1: 1, 2: 2, 3: 2},
  assumptions=["MPI and PETSc are the installed libraries; all ranks take the "
               "same choices in lockstep and message schedules are not varied"])

P("P23", "Initialisation helpers put every particle exactly where it was requested",
  "parallel_advection_initialisation moves every particle, created on any rank and "
  "for any positive number of steps, to the rank that owns its requested position, "
  "with exactly that position, all other properties unchanged, no particle lost or "
  "duplicated and no temporary property left. uniform_within_cartesian_cells gives "
  "every owned cell of a CartesianHMesh (any decomposition, dimension, subdivision "
  "and extent) exactly the requested number of particles with that cell's index "
  "(index 0 in single cell mode) and distinct positions inside it. "
  "uniform_within_extents and normal_distribution give the requested numbers of "
  "values and components in the requested range or with the requested mean and "
  "deviation, and repeat with an equal generator. get_npart_global is the sum over "
  "ranks for groups and sub groups, get_point_in_subdomain is inside the owned "
  "cells, and flatten_map keeps the order of keys.",
  ["inputs", "configurations"],
  "all destination cells of the free particles, cell corners included, 1-4 ranks, "
  "2D and 3D meshes, step counts, seeds",
  "Positions on cell edges, steps, decompositions and the start rank interact; "
  "tests look at one random distribution.",
  ["src/parallel_initialisation.cpp", "src/utility.cpp",
   "include/neso_particles/utility.hpp"],
  [{"file": "src/parallel_initialisation.cpp",
    "symbol": "parallel_advection_initialisation", "what": "movement along lines"},
   {"file": "src/utility.cpp", "symbol": "uniform_within_cartesian_cells",
    "what": "particles per cell"},
   {"file": "include/neso_particles/utility.hpp", "symbol": "get_npart_global",
    "what": "random arrays and counts"}],
  ["p_init"], "1-4 ranks, 7 meshes in 2D and 3D, 1-2 particles per rank, 2 free "
  "destinations over all cells, 4 offsets in the cell, 1, 3 and 20 steps; 5 meshes x "
  "2 subdivisions x 3 extents x 0-3 particles per cell; arrays of 0-2000 values",
  time=(300, 1500))

P("P24", "Product matrices, particle sets and temporary groups hold what was stored",
  "A ProductMatrix holds, after any sequence of resets to any number of rows, "
  "setting from host particle sets with all or some of its properties, and writes "
  "and atomic additions in particle loops, exactly the values last stored per row, "
  "property and component, the (possibly default) initial values elsewhere, and "
  "loops read the same values as the host. Particles created from "
  "DescendantProducts are exactly those whose parent was set: they are in the "
  "parent's cell (or in the cell given as a property), have the product's values "
  "for its properties and copies of the parent's for the others (zero if the "
  "parent's group, which may be another one, lacks them), and all existing "
  "particles stay as they were. Host ParticleSets hold per property, row and "
  "component what was set, also through another set. ParticleGroupTemporary "
  "provides empty groups with exactly the current properties of the group, never "
  "the same one to two users, whatever was done with it before.",
  ["histories", "inputs"],
  "all sequences of operations up to the depth, all property lists of the family, "
  "all subsets of products",
  "Layouts with several properties of different component counts, shrinking and "
  "growing and partial sets are error prone; tests use one layout and one order.",
  ["include/neso_particles/containers/product_matrix.hpp",
   "src/containers/descendant_products.cpp",
   "src/containers/particle_set_device.cpp", "src/particle_set.cpp",
   "src/particle_group_temporary.cpp"],
  [{"file": "src/containers/particle_set_device.cpp", "symbol": "ParticleSetDevice",
    "what": "rows of properties on the device"},
   {"file": "src/containers/descendant_products.cpp", "symbol": "DescendantProducts",
    "what": "parents of products"},
   {"file": "src/particle_group.cpp", "symbol": "add_particles_local",
    "what": "particles from products"},
   {"file": "src/particle_group_temporary.cpp", "symbol": "ParticleGroupTemporary",
    "what": "temporary groups"}],
  ["p_prod"], "16 property lists with 0-3 real and 0-3 integer properties of 1-3 "
  "components, 0-3 rows, 2 (thorough: 3) operations of 7 kinds; all subsets of 0-6 "
  "products in 2 rounds; 5 (6) operations on temporary groups; 3 on host sets",
  time=(300, 1500))

NOT_APPLICABLE = {}

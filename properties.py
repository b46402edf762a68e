def define(prop, check, COMMON):
    prop("D01", "Message and rank timing never changes a parallel result",
         "Running the same sequence of mesh operations (adaptation, migration, ghosting, balancing, synchronisation, "
         "reductions, file round trips) on the same number of ranks gives every rank bit-for-bit the same mesh, fields "
         "and computed values, whatever order messages arrive in, however ranks are delayed, and whether sends are "
         "buffered or not.",
         ["schedules", "programs", "configurations"],
         "all legal MPI delivery orders, rank delays and completion timings, over generated meshes, partitions and operation sequences",
         "The tests run each case once under whatever schedule the machine gives; a wildcard receive, an unordered neighbour list or an "
         "unsynchronised buffer only shows under particular orders.",
         ["src/Omega_h_comm.cpp", "src/Omega_h_dist.cpp", "src/Omega_h_migrate.cpp", "src/Omega_h_owners.cpp", "src/Omega_h_mesh.cpp"],
         [("sorted neighbour discovery", "src/Omega_h_comm.cpp sources_from_destinations"),
          ("fixed exchange layout", "src/Omega_h_dist.cpp Dist::exch"),
          ("order by global number", "src/Omega_h_owners.cpp")],
         check(6000, "a generated program (box mesh, partition, 1-8 operations) runs once under the in-order schedule and once under a "
                     "seeded perturbed schedule; every rank's part is compared bitwise after every operation. Non-trivial: at least one "
                     "non-default scheduling, delivery or completion decision was taken, and the (schedule, result) hash is new",
               "seeded sampling of schedules and programs; small meshes (up to a few hundred elements), up to 7 ranks"))

    prop("D02", "Adaptation results do not depend on rank count or partition",
         "Building, adapting and measuring a mesh gives the same global mesh, classification, transferred fields and "
         "computed statistics, bit for bit after matching entities by global number, whether it runs on one rank or on any "
         "number of ranks with any distribution of elements, including ranks that hold none.",
         ["configurations", "programs", "schedules"],
         "all rank counts and element partitions, over generated meshes, metric fields, options and adaptation sequences, and all message schedules",
         "Tests compare a few fixed cases on 1-4 ranks with the default partition; they never scatter elements, empty a rank or mix operations.",
         ["src/Omega_h_adapt.cpp", "src/Omega_h_refine.cpp", "src/Omega_h_coarsen.cpp", "src/Omega_h_swap.cpp", "src/Omega_h_indset.cpp",
          "src/Omega_h_globals.cpp", "src/Omega_h_modify.cpp", "src/Omega_h_transfer.cpp", "src/Omega_h_conserve.cpp"],
         [("independent set by global tie-break", "src/Omega_h_indset.cpp"),
          ("global renumbering", "src/Omega_h_modify.cpp, src/Omega_h_globals.cpp"),
          ("reproducible sums", "src/Omega_h_reduce.hpp, src/Omega_h_array_ops.cpp")],
         check(3200, "the program runs on 1 rank under the in-order schedule and on N ranks, with a random partition, under a perturbed schedule; "
                    "meshes are matched by global number and compared bitwise after every operation",
               "seeded sampling; small meshes, up to 6 ranks"))

    prop("D03", "Parallel operations always complete and leave no communication behind",
         "Every collective mesh operation finishes on all ranks under any message timing, with matching participation in each "
         "collective, no message left undelivered, no request or communicator leaked, and no failure that depends on timing or on how "
         "elements are spread over ranks.",
         ["schedules", "programs", "configurations"],
         "all legal delivery orders, unbuffered sends, delayed completions and rank stalls, over generated operation sequences and partitions",
         "A deadlock or a stray message needs a specific ordering or an MPI that does not buffer; the tests run on one node with an eager transport.",
         ["src/Omega_h_comm.cpp", "src/Omega_h_dist.cpp", "src/Omega_h_future.cpp", "src/Omega_h_profile.cpp", "src/Omega_h_migrate.cpp"],
         [("consensus-based neighbour discovery", "src/Omega_h_comm.cpp sources_from_destinations"),
          ("non-blocking neighbour exchange", "src/Omega_h_comm.cpp Neighbor_*"),
          ("timing report gathering", "src/Omega_h_profile.cpp")],
         check(8000, "a generated program runs on up to 9 ranks; the simulator reports a deadlock when no rank can run and no message can be "
                     "delivered, a mismatched collective, a truncated or unmatched message, a leaked request or communicator, or a rank error",
               "seeded sampling; a run is bounded in scheduling steps, far above what any completed run needs"))

    prop("D04", "A distributed mesh stays consistent after every operation",
         "After any operation each entity has exactly one owner that all its copies agree on, global numbers are unique and contiguous, "
         "copies carry identical tags, all derived adjacencies agree with the stored ones, boundaries and volume match the domain, and the "
         "parts hold exactly the entities the current partitioning mode and ghost depth require.",
         ["programs", "schedules", "configurations"],
         "all sequences of adaptation, migration, ghosting, synchronisation and tagging operations over generated meshes of simplices and "
         "hypercubes, on any number of ranks",
         "Tests check a handful of end states; stale caches, lost ownership or inconsistent ghosts need particular sequences.",
         ["src/Omega_h_mesh.cpp", "src/Omega_h_migrate.cpp", "src/Omega_h_ghost.cpp", "src/Omega_h_owners.cpp", "src/Omega_h_adj.cpp",
          "src/Omega_h_globals.cpp"],
         [("owner resolution", "src/Omega_h_owners.cpp"), ("ghost layers", "src/Omega_h_ghost.cpp"),
          ("cached adjacency invalidation", "src/Omega_h_mesh.cpp")],
         check(8000, "after every operation the images of all ranks are combined out of band and checked against independent definitions of "
                     "ownership, ghost depth, closure, adjacency, geometry and tag agreement",
               "seeded sampling; small meshes, up to 8 ranks, up to 9 operations"))

    prop("D05", "Moving a mesh between ranks changes only where things live",
         "Migrating elements to any distribution, balancing, changing the partitioning mode or ghost depth, synchronising, copying, "
         "renumbering locally or writing and reading the mesh keeps every entity, its vertices, classification, global number and tag values exactly.",
         ["programs", "schedules", "configurations"],
         "all destination maps and sequences of moves, for simplex and hypercube meshes with tags of every type and width",
         "Tests move a mesh once or twice along the library's own balance; arbitrary scatters, empty ranks and deep ghosting are not exercised.",
         ["src/Omega_h_migrate.cpp", "src/Omega_h_ghost.cpp", "src/Omega_h_dist.cpp", "src/Omega_h_mesh.cpp", "src/Omega_h_inertia.cpp",
          "src/Omega_h_reorder.cpp", "src/Omega_h_file.cpp"],
         [("push of downward closure and tags", "src/Omega_h_migrate.cpp"), ("mode changes", "src/Omega_h_mesh.cpp set_parting")],
         check(10000, "the global content is compared before and after each move, and the requested mode and ghost depth are checked",
               "seeded sampling; small meshes, up to 8 ranks, up to 8 moves"))

    prop("D06", "Exchanges deliver exactly what the communication plan says",
         "Every collective, scan, gather, broadcast, neighbour discovery, graph communicator and item exchange (push, pull, reduce, "
         "inversion, sub-communicators, linear partitions, ownership resolution) delivers to each rank exactly the values its "
         "definition gives, for any plan, value type and width, including empty ranks, empty messages and self messages.",
         ["schedules", "configurations", "inputs"],
         "all exchange plans, neighbour graphs and sub-communicator trees over 1-9 ranks, all value types and widths, and all message schedules",
         "Tests use two fixed plans on two ranks; sparse graphs, repeated or missing neighbours and zero-length messages are not exercised.",
         ["src/Omega_h_comm.cpp", "src/Omega_h_dist.cpp", "src/Omega_h_owners.cpp", "src/Omega_h_linpart.cpp", "src/Omega_h_remotes.cpp"],
         [("plan construction and inversion", "src/Omega_h_dist.cpp"), ("typed wrappers over MPI", "src/Omega_h_comm.cpp"),
          ("owners from copies", "src/Omega_h_owners.cpp")],
         check(70000, "every result is compared with a model that each rank evaluates alone from the seed of the operation",
               "seeded sampling of plans and schedules, up to 9 ranks and a few hundred items per rank"))

    prop("D07", "Asynchronous exchanges return the right data whenever awaited",
         "A non-blocking exchange or tag synchronisation yields, once it reports completion or is awaited, exactly what the blocking form "
         "yields: whatever was done in between, in whatever order several pending operations are awaited, and even if the plan that "
         "started it is gone; it never reports completion early and always completes once messages arrive.",
         ["schedules", "histories"],
         "all orders of starting, polling and awaiting several pending operations on several communicators, with all message completion timings",
         "Tests await immediately on an eager transport; overlapping operations and late completions are not exercised.",
         ["src/Omega_h_future.cpp", "src/Omega_h_future.hpp", "src/Omega_h_comm.cpp", "src/Omega_h_dist.cpp", "src/Omega_h_mesh.cpp"],
         [("completion and result callback", "src/Omega_h_future.cpp"), ("non-blocking plan exchange", "src/Omega_h_dist.cpp Dist::iexch"),
          ("tag synchronisation", "src/Omega_h_mesh.cpp isync_array, ireduce_array")],
         check(60000, "pending operations are started, polled, moved, abandoned by their plan and awaited in generated orders; results are "
                     "compared with a model and completion must come within a bounded number of polls once messages are delivered",
               "seeded sampling, up to 7 ranks"))

    prop("D08", "Thread count and thread scheduling never change a result",
         "With the OpenMP back end, every array algorithm (sorting, scanning, reducing, inverting, collecting) and every mesh operation built on "
         "them gives, for any number of threads, any team size and any interleaving of the threads, bit for bit the result of one thread, which "
         "is the mathematically defined one; and it always completes. (Floating point get_sum is excluded: only repro_sum promises this.)",
         ["schedules", "configurations", "inputs", "programs"],
         "all interleavings of up to 40 threads and their tasks at memory accesses, atomics, barriers and task points, over generated arrays, meshes and operation sequences",
         "The tests run without threads or under one lucky interleaving; a lost update, a missing barrier or a merge that is not stable needs a "
         "preemption between two particular instructions or array sizes around the number of threads.",
         ["src/Omega_h_for.hpp", "src/Omega_h_reduce.hpp", "src/Omega_h_scan.hpp", "src/Omega_h_atomics.hpp", "src/Omega_h_sort.cpp", "src/Omega_h_map.cpp",
          "src/Omega_h_adj.cpp", "src/Omega_h_modify.cpp", "tpl/pss/parallel_stable_sort.hpp"],
         [("chunked scan", "src/Omega_h_scan.hpp transform_inclusive_scan"), ("atomic counters, rows sorted afterwards", "src/Omega_h_map.cpp invert_map_by_atomics, src/Omega_h_adj.cpp sort_by_high_index"),
          ("task-parallel merge sort", "tpl/pss/parallel_stable_sort.hpp")],
         check(6000, "generated array algorithms are compared with sequential models, and generated mesh programs on 1 to 4 ranks are compared bitwise after every "
                     "operation between one thread and a team of simulated threads under a seeded preemptive schedule",
               "seeded sampling of interleavings; sequentially consistent memory (threads interleave on one processor)", variant="omp"))

    prop("D09", "Global sums and statistics do not depend on distribution or order",
         "The reproducible sum of any values is the same bit for bit in any order, over any number of ranks and any distribution "
         "(also with empty ranks), and is the exact sum to within a unit of the last place of the largest value per addend; counts, minima, "
         "maxima, integer sums, bounding boxes, histograms and owned-entity totals of a mesh are exact and equal on all ranks and for all partitions.",
         ["inputs", "configurations", "schedules"],
         "all arrays of finite values of any magnitude and sign, all distributions over ranks, and all statistics over generated distributed meshes",
         "Tests sum a handful of values of similar size; cancellation, subnormal or huge values, empty ranks and ghosted copies are not exercised.",
         ["src/Omega_h_array_ops.cpp", "src/Omega_h_int128.hpp", "src/Omega_h_comm.cpp", "src/Omega_h_mesh.cpp", "src/Omega_h_histogram.cpp",
          "src/Omega_h_bbox.cpp"],
         [("fixed point summation", "src/Omega_h_array_ops.cpp repro_sum"), ("128 bit reduction", "src/Omega_h_comm.cpp add_int128"),
          ("owned-entity filtering", "src/Omega_h_mesh.cpp repro_sum_owned")],
         check(20000, "generated arrays are summed on one rank, shuffled and spread over several, and compared with a model in extended precision; "
                     "statistics of a generated mesh are compared between one and several ranks and with independent values",
               "seeded sampling; finite values; sums that stay within the documented headroom"))

    prop("D10", "Adaptation keeps the classified domain and its quality and length limits",
         "After adapting, refining, coarsening or swapping, on any number of ranks, the mesh covers exactly the domain it started from: every "
         "model entity keeps its extent, entities stay on the model entity they are classified on, closures are classified consistently, "
         "boundaries lie between regions and outside; the worst quality does not fall below the lower of its old value and the allowed limit, "
         "and no edge becomes longer than the longer of the old longest and the allowed length.",
         ["programs", "configurations", "schedules"],
         "all sequences of adaptation steps over generated classified boxes with one or two regions in 1 to 3 dimensions, isotropic and anisotropic "
         "metrics, options, rank counts, partitions and message schedules",
         "Tests compare final edge lengths and qualities of a few fixed cases; a collapse across a region boundary or a swap on an "
         "edge of the model needs particular local configurations.",
         ["src/Omega_h_adapt.cpp", "src/Omega_h_coarsen.cpp", "src/Omega_h_collapse.cpp", "src/Omega_h_check_collapse.cpp", "src/Omega_h_refine.cpp",
          "src/Omega_h_swap2d.cpp", "src/Omega_h_swap3d.cpp", "src/Omega_h_class.cpp", "src/Omega_h_modify.cpp"],
         [("collapse classification checks", "src/Omega_h_collapse.cpp check_collapse_class"),
          ("cavity quality checks", "src/Omega_h_coarsen_qualities.cpp, src/Omega_h_swap3d_qualities.cpp"),
          ("exposure checks", "src/Omega_h_collapse.cpp check_collapse_exposure")],
         check(10000, "generated adaptation sequences; the gathered mesh is compared with the classified domain it started from by independent "
                     "geometry, and quality and edge lengths with the documented bounds",
               "seeded sampling; boxes with planar boundaries (no snapping to a curved geometry); small meshes, up to 4 ranks"))

    prop("D11", "Field transfer conserves, reproduces and bounds what it promises",
         "Every field named in the transfer options is present after adaptation with its size and: conserved densities keep their integral over "
         "each region, conserved momentum its total, linear vertex fields are reproduced exactly, interpolated values and metrics stay in the old "
         "range, pointwise and inherited values are old values, and whatever did not change keeps its value, on any number of ranks.",
         ["programs", "configurations", "schedules"],
         "all sequences of adaptation steps with any combination of transfer kinds, over generated meshes, regions, metrics, partitions and message schedules",
         "Tests transfer one or two fields over one adaptation; regions, combinations of kinds, empty ranks and 1D meshes are not exercised.",
         ["src/Omega_h_transfer.cpp", "src/Omega_h_conserve.cpp", "src/Omega_h_refine.cpp", "src/Omega_h_coarsen.cpp", "src/Omega_h_adapt.cpp",
          "src/Omega_h_metric.cpp"],
         [("transfer by kind and modification", "src/Omega_h_transfer.cpp"), ("error diffusion of conserved quantities", "src/Omega_h_conserve.cpp")],
         check(7500, "fields of generated transfer kinds are attached before generated adaptation sequences; the gathered old and new fields are "
                     "compared by independent integration and lookup",
               "seeded sampling; integrals compared to a relative tolerance of 1e-9 of the sum of magnitudes (1e-8 for momentum)"))

    prop("D12", "A mesh file reads back exactly and continuing from it equals never stopping",
         "Writing a mesh and reading it back (Omega_h's own format, Gmsh, text arrays), on the same or on more ranks, by the same or a "
         "later job, over an older file, and when the system transfers data in short or interrupted pieces, gives the same entities, "
         "classification, global numbers, parts and tag values; continuing from the file gives bit for bit what continuing in memory gives.",
         ["inputs", "configurations", "histories", "schedules"],
         "all meshes reachable by generated operation sequences, tag sets, rank counts when writing and reading, compression settings, and patterns of short or interrupted transfers",
         "Tests write and read a few fixed meshes once; short transfers, stale files, scattered parts and continued runs are not exercised.",
         ["src/Omega_h_file.cpp", "src/Omega_h_gmsh.cpp", "src/Omega_h_array_ops.cpp", "src/Omega_h_base64.cpp"],
         [("part files and metadata", "src/Omega_h_file.cpp binary::write, binary::read"), ("Gmsh writer and readers", "src/Omega_h_gmsh.cpp")],
         check(6000, "a job writes a mesh through the simulated file layer, another reads it; the parts are compared bitwise, the file is "
                     "rewritten and compared, and both jobs continue with the same operations and are compared again",
               "seeded sampling; Gmsh is written by one rank, as the code requires; small meshes, up to 8 ranks"))

    prop("D13", "A file that could not be written completely is reported",
         "When creating, writing or closing any output file or directory fails (full disk, I/O error, refused open) the job ends with an "
         "error instead of finishing normally, on whichever rank and at whichever call the failure happens; without a failure it ends normally.",
         ["crash_points", "configurations", "schedules", "fault_sequences"],
         "all positions of a failing open, mkdir, write or close, or of the disk filling up, in any output of any format on any rank",
         "Tests never make a write fail.",
         ["src/Omega_h_file.cpp", "src/Omega_h_vtk.cpp", "src/Omega_h_gmsh.cpp", "src/Omega_h_array_ops.cpp", "src/Omega_h_filesystem.cpp"],
         [("stream state checks after each file", "src/Omega_h_file.cpp, src/Omega_h_vtk.cpp, src/Omega_h_gmsh.cpp")],
         check(16000, "one failure is injected at a generated position below the stream layer; the job must end with an error exactly when "
                     "the failure was delivered to it",
               "seeded sampling of failure positions; one failure per run"))

    prop("D14", "An incomplete file is never taken for a mesh",
         "Reading a mesh whose writing was cut short by a crash or an error, whose files were truncated anywhere or are partly missing, or "
         "that cannot be read at some point, either yields exactly the mesh that was to be written or ends with an error: never another "
         "mesh, and never an endless wait.",
         ["crash_points", "inputs", "schedules"],
         "all crash points (with torn writes), truncation lengths, missing part files and read errors, for generated distributed meshes",
         "Tests only read complete files.",
         ["src/Omega_h_file.cpp", "src/Omega_h_vtk.cpp", "src/Omega_h_xml_lite.cpp"],
         [("end-of-data checks on every value read", "src/Omega_h_file.cpp"), ("closing tags required", "src/Omega_h_vtk.cpp")],
         check(32000, "the writing job is crashed, failed, or its files are damaged afterwards; a second job reads them and its mesh, if it "
                     "gets one, is compared with the one in memory when writing started",
               "seeded sampling; damage is loss of data or of calls, not altered bytes; the directory is fresh, as a stale mesh under the "
               "same name is replaced file by file"))

    prop("D15", "VTK output and its time series are complete and reread exactly",
         "A mesh written in VTK form reads back on any sufficient number of ranks with the same vertices, elements, global "
         "numbers and field values; a time series lists exactly the steps written, in order and with their exact times; after a crash every "
         "finished step is still listed and every listed step is complete; continuing a series from a restart time keeps the earlier steps "
         "and replaces the later ones.",
         ["histories", "crash_points", "configurations", "schedules", "fault_sequences"],
         "all sequences of steps, crash points, restart times, rank counts and compression settings, for meshes changing between steps",
         "Tests write one file; crashes between or inside steps, restarts and message timing are not exercised.",
         ["src/Omega_h_vtk.cpp", "src/Omega_h_base64.cpp", "src/Omega_h_xml_lite.cpp"],
         [("series file kept well-formed at each step", "src/Omega_h_vtk.cpp update_pvd, read_existing_pvd"),
          ("pieces finished before the step is listed", "src/Omega_h_vtk.cpp write_parallel, Writer::write")],
         check(15000, "meshes and series are written, crashed, continued and read back through the simulated file layer and compared with "
                     "images taken in memory",
               "seeded sampling; vertex-based partitions are excluded (documented by the code as unreadable); a crash keeps what reached the file system"))

    prop("D16", "A mesh built from scattered elements equals the mesh built in one place",
         "Building a mesh from element connectivity and coordinates that are spread over ranks in any way (file slices, scattered, unevenly, "
         "with ranks that hold none) gives the same vertices, sides, elements, ownership, classification by exposure, by angles or from given "
         "sides, and coordinates as building it on one rank, under any message schedule, and the mesh can be used like any other.",
         ["configurations", "schedules", "inputs"],
         "all distributions of the elements of generated simplex and hypercube meshes over 1-7 ranks, all numberings, classification methods and message schedules",
         "Tests build on one rank and distribute afterwards; only the Exodus reader, which is not built here, builds across ranks.",
         ["src/Omega_h_build.cpp", "src/Omega_h_owners.cpp", "src/Omega_h_class.cpp", "src/Omega_h_linpart.cpp", "src/Omega_h_surface.cpp",
          "src/Omega_h_inertia.cpp"],
         [("shared entities found by their vertices", "src/Omega_h_build.cpp resolve_derived_copies"),
          ("slices assembled into parts", "src/Omega_h_build.cpp assemble_slices"),
          ("classification projected downward", "src/Omega_h_class.cpp finalize_classification")],
         check(8000, "a box with scrambled numbering is dealt to ranks and built; parts are combined and compared with the one-rank build by vertex "
                     "sets, ownership is checked independently, then further operations may follow",
               "seeded sampling; boxes; classification ids are given for all sides and elements or for none, because projecting a mixture of known and "
               "unknown ids depends on entity order in the code as it is"))

    prop("D17", "Mesh comparison reports exactly the differences within its tolerance",
         "Comparing two meshes reports equality exactly when every entity, tag and value of one matches the other within the given tolerance "
         "and floor, reports additional tags as additional, and any changed value, missing tag, or changed structure as different; the answer is the "
         "same on every rank, for any partition of either mesh, and the regression check built on it passes and fails accordingly.",
         ["inputs", "configurations", "schedules"],
         "all single and combined perturbations of values, tags and structure of generated distributed meshes, all tolerances, partitions and message schedules",
         "Tests only compare equal meshes; a comparison that always agreed would pass them all, and it is what decides every other regression test.",
         ["src/Omega_h_compare.cpp", "src/Omega_h_mesh.cpp", "src/Omega_h_linpart.cpp", "src/Omega_h_owners.cpp"],
         [("values brought to a linear partition", "src/Omega_h_compare.cpp compare_copy_data, compare_meshes"),
          ("tolerance and floor", "src/Omega_h_compare.cpp compare_real")],
         check(9000, "a generated mesh is copied, moved and perturbed in a known way, and the answer of the comparison is checked against what was done",
               "seeded sampling; perturbations stay clear of the tolerance by a small factor"))

    prop("D18", "Results do not depend on memory, pooling or accounting; failure ends the job",
         "Whatever is left in memory handed out by the allocator, whether allocations are pooled or tracked, and wherever blocks lie, every operation "
         "gives the results it gives with fresh zeroed memory; an allocation that fails ends the whole job with an error instead of a wrong result; "
         "arrays keep their values and shared ownership through copies, moves and self-assignment; nothing is written outside a block; everything "
         "is freed and accounted for at the end.",
         ["histories", "fault_sequences", "inputs", "schedules"],
         "all histories of mesh operations and of array creation, sharing, renaming and destruction, all prior memory contents and all allocation failure points",
         "Tests run with the contents the system allocator happens to hand out, mostly zeroes, never fail an allocation, and never look at the accounts.",
         ["src/Omega_h_shared_alloc.cpp", "src/Omega_h_shared_alloc.hpp", "src/Omega_h_pool.cpp", "src/Omega_h_malloc.cpp", "src/Omega_h_array.cpp",
          "src/Omega_h_library.cpp"],
         [("reference-counted blocks and the tracking list", "src/Omega_h_shared_alloc.cpp"), ("size-class pool", "src/Omega_h_pool.cpp"),
          ("failure of an allocation is fatal", "src/Omega_h_malloc.cpp, src/Omega_h_pool.cpp")],
         check(10000, "a mesh program is run with zeroed memory and no pool and again with poisoned or recycled memory, pooling, tracking or a failing "
                     "allocation; results, guard bytes and remaining memory are compared; array histories are compared with a reference model",
               "seeded sampling; allocation failure is injected in the library's own allocation calls and in operator new"))

    prop("D19", "Balancing spreads the work evenly and does not depend on where elements were",
         "After balancing, the two halves of the ranks hold equal work within twice the weight of one element, and so on down to single ranks, for "
         "counted elements and for the work a metric predicts; the mesh is element-based and complete; which elements each rank holds, and in which "
         "order, depends only on the mesh and the remembered cutting axes, not on the distribution before; forgotten axes are found again from the "
         "mesh itself; balancing a balanced mesh changes nothing; the reported imbalance is the true one.",
         ["configurations", "programs", "schedules"],
         "all prior distributions and parting modes, rank counts, deformations, metric fields and sequences of balancing, remembering and forgetting axes, and all message schedules",
         "Tests balance a few boxes from one distribution and look at little more than that the job ends.",
         ["src/Omega_h_inertia.cpp", "src/Omega_h_bipart.cpp", "src/Omega_h_mesh.cpp", "src/Omega_h_linpart.cpp", "src/Omega_h_migrate.cpp"],
         [("bisection along the principal axis", "src/Omega_h_inertia.cpp mark_bisection"), ("halves spread by rank and order", "src/Omega_h_bipart.cpp bi_partition"),
          ("order by global number after balancing", "src/Omega_h_mesh.cpp Mesh::balance")],
         check(8000, "the same mesh is balanced from two different distributions, with axes remembered in one and forgotten in the other; the parts are "
                     "compared bit for bit, the work of every half is summed up from the recorded shares, and balancing again must change nothing",
               "seeded sampling; 1, 2, 4 or 8 ranks; evenness is judged on meshes whose points are not lined up"))

    prop("D20", "Adaptive refinement of quad and hex meshes keeps a consistent tree",
         "After any sequence of refining marked elements and undoing refinements, a quadrilateral or hexahedral mesh consists of exactly the cells of the "
         "refinement tree and their sides, each once; levels, leaves, parents, children and the codes naming which part of its parent an entity is all "
         "agree with the tree; classification and inherited values come from the coarsest entity, linear fields stay exact; the marks completed for 2-to-1 "
         "balance are the smallest set that keeps neighbours within one level; all of this survives files, copies and reordering; and the first refinement "
         "of a distributed mesh is the one of the undistributed mesh.",
         ["histories", "inputs", "schedules", "configurations"],
         "all sequences of refining, derefining, writing and reading, copying and reordering on generated quadrilateral and hexahedral meshes, all sets of marks, and, "
         "for the first refinement, all distributions and message schedules",
         "Tests refine two or three elements of one box and mostly check that nothing aborts.",
         ["src/Omega_h_amr.cpp", "src/Omega_h_amr_topology.cpp", "src/Omega_h_amr_transfer.cpp", "src/Omega_h_hypercube.cpp", "src/Omega_h_unmap_mesh.cpp",
          "src/Omega_h_modify.cpp", "src/Omega_h_mesh.cpp"],
         [("children placed on the midpoints of their parents' sides", "src/Omega_h_amr_topology.cpp get_refined_topology"),
          ("parents carried to the new mesh", "src/Omega_h_amr_transfer.cpp transfer_parents"), ("marks completed", "src/Omega_h_amr.cpp enforce_2to1_refine"),
          ("children owned like their parents", "src/Omega_h_modify.cpp get_prod_owners_shared")],
         check(8000, "a reference tree of integer cells is refined and pruned along with the mesh and every entity of the mesh is located in it by its coordinates; "
                     "the first refinement on several ranks is compared with that on one rank by global numbers",
               "seeded sampling; sequences on one rank, because parents do not follow migration in this code and only the first refinement works across ranks"))

    prop("D21", "Command-line tools give one answer on any number of ranks and report failure",
         "Each command-line tool, run as a whole job on any number of ranks it accepts, with flags in any order and with interrupted or short file "
         "operations, writes the mesh it writes on one rank (parts apart), which is what it was asked for: the box, the parts, the scaled, fixed, measured, "
         "reordered or converted mesh; the comparing tools end with the status that the differences, tolerances, variable lists and flags imply, the same "
         "on every rank; a command that is malformed, cannot be carried out or cannot write all of its output never ends with status 0.",
         ["inputs", "configurations", "schedules", "fault_sequences"],
         "all pipelines of the tools over generated meshes, part counts, ranks, command lines, comparison command files and injected file errors, and all message schedules",
         "Tests run a few tools once with fixed arguments, most of them on one rank, and never look at refusals, command files or failing writes.",
         ["src/osh_box.cpp", "src/osh_part.cpp", "src/osh_scale.cpp", "src/osh_fix.cpp", "src/osh_eval_implied.cpp", "src/osh_reorder.cpp", "src/oshdiff.cpp",
          "src/vtkdiff.cpp", "src/osh2vtk.cpp", "src/msh2osh.cpp", "src/osh_adapt.cpp", "src/ascii_vtk2osh.cpp", "src/Omega_h_cmdline.cpp", "src/Omega_h_compare.cpp",
          "src/Omega_h_library.cpp"],
         [("command lines", "src/Omega_h_cmdline.cpp CmdLine::parse"), ("comparison command files", "src/Omega_h_compare.cpp accept_diff_program_cmdline"),
          ("part counts and rank groups", "src/osh_part.cpp")],
         check(4500, "the tools' own main functions run on all ranks of simulated jobs; files are compared with those written by the tool on one rank, with the mesh "
                     "asked for, and exit statuses with a model of the command line and command file",
               "seeded sampling; small meshes, pipelines of up to 4 tools, up to 7 ranks; tools of back ends that are not built here are left out"))

    prop("D22", "Queries, derived fields and plots do not depend on distribution or position",
         "Marks spread over adjacent entities, sets by class and by name, counts of marks, random numbers by global number, surface normals, curve "
         "tangents, curvatures and the metrics made from them, bridges, distances and angles between close boundaries, implied metrics, reductions over "
         "copies, owned parts of arrays and scatter plots are what their definitions give on one rank, the same for any distribution over any number of "
         "ranks, equal on all copies, always finite, and turn and scale with the mesh when it is turned, scaled or moved.",
         ["inputs", "configurations", "schedules", "fault_sequences"],
         "all generated meshes (also curved, in several regions, adapted), distributions, ghost layers, model entities and sets, and message schedules",
         "Most of these functions have no test in parallel and some have none at all; a missing synchronisation shows only under particular partitions.",
         ["src/Omega_h_mark.cpp", "src/Omega_h_assoc.cpp", "src/Omega_h_surface.cpp", "src/Omega_h_confined.cpp", "src/Omega_h_random.cpp",
          "src/Omega_h_scatterplot.cpp", "src/Omega_h_eigen.cpp", "src/Omega_h_metric.cpp", "src/Omega_h_mesh.cpp"],
         [("marks and class closures", "src/Omega_h_mark.cpp mark_down, mark_class_closures"), ("surface geometry", "src/Omega_h_surface.cpp get_surface_info"),
          ("plots written in turn", "src/Omega_h_scatterplot.cpp write_scatterplot")],
         check(2600, "a generated program derives fields on one rank, where they are compared with brute-force definitions and with those of the mesh turned, scaled and "
                     "moved, and on N ranks under a perturbed schedule, where they are matched with the first by global number",
               "seeded sampling; small meshes, up to 7 ranks; geometric fields compared within a relative tolerance, marks, sets and numbers exactly"))

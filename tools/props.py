"""The property list: single source of properties.jsonl and MANIFEST.json."""

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, level="proof", note="", technique=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=" ".join(text.split()), why=" ".join(why.split()),
                  files=files, mech=mech, state=state or [], level=level, note=" ".join(note.split()), technique=technique))


MPI = "caput/mpiarray.py"
TOOLS = "caput/util/mpitools.py"
MEM = "caput/memdata/_memh5.py"
PIPE = "caput/pipeline/_pipeline.py"

prop("P01", "Division of work and data among ranks is exact, contiguous and balanced",
     """Splitting N items into P parts (for this rank or for all ranks, as counts, starts and ends), splitting a list into P
     parts (globally or over a communicator), and a rank's share of a range all cover every item exactly once, in order for the
     contiguous methods, with part sizes that differ by at most one. The per-rank answer is the corresponding entry of the
     answer for all ranks, for every N, P and rank including N < P and N = 0.""",
     ["inputs", "configurations"], "all N >= 0, P >= 1, ranks 0 <= r < P, list lengths, range start/stop/step",
     "tests use a couple of (N, P) pairs; every distributed array, read and write relies on it for all of them",
     ["caput/util/arraytools.py", TOOLS],
     [("split_m", "caput/util/arraytools.py"), ("partition_list", "caput/util/arraytools.py"), ("split_all/split_local/mpirange/partition_list_mpi", TOOLS)])

prop("P02", "Indexing a distributed array by global index equals indexing the whole array",
     """Reading or assigning through the global indexer of a distributed array with integers, slices (any sign, any step,
     out-of-range bounds, None, Ellipsis) acts on the rank-local parts such that, put together, the result is exactly what the
     same index gives on the whole array. A rank that owns nothing of an integer index on the distributed axis gets None and
     an assignment touches no element outside the index.""",
     ["inputs", "configurations"], "all shapes, distributed axes, communicator sizes, ranks, and integer/slice keys",
     "the tests sample a few slices at one process count; off-by-one and negative-index errors appear only for particular bounds relative to the rank boundaries",
     [MPI], [("_global_resolver.__getitem__/__setitem__/_resolve_slice", MPI), ("MPIArray.__getitem__/__setitem__", MPI)])

prop("P03", "Redistributing, gathering and broadcasting preserve the whole array",
     """Changing the axis a distributed array is split over, gathering it on one rank or on all ranks, converting between a
     common array and a distributed one, and collecting separate local blocks into one array keep every element at its global position
     with its value and type, for any sequence of axes, any number of ranks (more ranks than elements included) and any memory
     layout.  No operation deadlocks or depends on message arrival order.""",
     ["inputs", "configurations", "schedules"], "all shapes, dtypes, axes, communicator sizes, roots, layouts, and message schedules",
     "tests run with one process in CI and a fixed shape; block bookkeeping errors show only when sizes do not divide",
     [MPI, TOOLS, MEM], [("MPIArray.redistribute/gather/allgather", MPI), ("transpose_blocks/gather_local/allgather/bcast", TOOLS), ("MemGroup.dataset_common_to_distributed/dataset_distributed_to_common", MEM)])

prop("P04", "Creating, copying, slicing, transposing, reshaping keep data and layout in step",
     """For every distributed array obtained by construction, wrapping, copying, basic indexing, transposing or reshaping, the
     recorded distributed axis, global shape, local offset and local shape describe exactly which part of the global result the rank
     holds, and the local data is that part.  Operations that would index, reshape or drop the distributed axis in a way that cannot be
     expressed are refused on all ranks with an error instead of returning mislabelled data.""",
     ["inputs", "configurations"], "all shapes, axes, permutations, basic keys, target shapes, communicator sizes and ranks",
     "tests check a few shapes; metadata and data can diverge only for particular axis/shape combinations and ranks without data",
     [MPI], [("MPIArray.__new__/wrap/_view_from_data_and_params", MPI), ("MPIArray.__getitem__/copy/transpose/reshape/enumerate", MPI)])

prop("P05", "Numpy operations on distributed arrays equal the serial result or are refused",
     """An element-wise numpy operation, in-place operation, reduction or accumulation on distributed arrays (mixed with scalars and ordinary
     arrays, with broadcasting) gives local parts that together equal numpy's result on the whole arrays, with layout metadata that matches.
     Combinations that would need communication or are distributed inconsistently (different axes, different communicators, accumulating over the
     distributed axis) raise an error instead of giving a wrong result.""",
     ["inputs", "configurations", "programs"], "all operand shapes, axes, broadcast patterns, ufuncs, reduction axes and communicator sizes",
     "the combination of ufunc kind, operand kinds, axes (also negative), keepdims and out arguments is far larger than what tests enumerate",
     [MPI], [("MPIArray.__array_ufunc__/_array_ufunc_call/_array_ufunc_reduce/_array_ufunc_accumulate", MPI)])

prop("P06", "Parallel reads and writes give every rank exactly its share of the file",
     """Reading a dataset from a file into a distributed array, with or without a selection (slices with steps, index lists, on any
     axis including the distributed one), yields exactly the selected data split over the ranks, identical to reading the whole dataset, selecting and
     distributing it; writing a distributed array to a file and reading it back gives the same global array.""",
     ["inputs", "configurations"], "all shapes, axes, selections, types, file formats and communicator sizes",
     "selections interact with rank boundaries; tests use one selection at one size",
     [MPI], [("MPIArray.from_file/from_hdf5/to_hdf5/to_file", MPI), ("_partition_sel/_reslice/_expand_sel/_apply_sel/_make_selections/_len_slice", MPI)])

prop("P07", "Chunked transfers tile the array exactly, within the limit, alike on all ranks",
     """When a parallel transfer is divided into chunks, the chunks cover the whole array exactly once, are divided along an axis that is
     not the distributed one, each rank's share of each chunk respects the size limit, and all ranks agree on the number of chunks.  A transfer that
     cannot be divided is refused on every rank, and one that can is never refused.""",
     ["inputs", "configurations"], "all shapes (empty included), axes, item sizes, limits and communicator sizes",
     "needs large arrays and several ranks; tests cover one small shape",
     [MPI], [("MPIArray._partition_io", MPI), ("MPIArray._to_hdf5_serial/from_hdf5", MPI)])

prop("P08", "The data tree behaves as a path-addressed mapping with independent copies",
     """After any history of creating groups and datasets, requiring, deleting, reading, writing and attribute updates through any handle and any absolute or
     relative path, membership, iteration, lookup, names, parents and contents equal those of a nested dictionary; a missing path raises KeyError and a name clash is refused without changing the tree.
     A copied tree shares no mutable state with the original unless a shared copy was asked for, and views restricted to some datasets hide the rest.""",
     ["histories", "inputs"], "all operation histories, tree shapes, path spellings and handle positions",
     "tests check a few fixed trees; errors show after particular histories",
     [MEM], [("_Storage/_StorageRoot", MEM), ("_BaseGroup/MemGroup/MemDiskGroup", MEM), ("deep_group_copy", MEM)])

prop("P09", "Saving and loading a data tree gives back the same tree",
     """Writing an in-memory tree (from one or several ranks, with common or distributed datasets) to HDF5 or Zarr and loading it back yields the same groups, datasets,
     values, types, shapes and attributes, including text, structured types, dates, nested dictionaries and missing values in attributes, and a loaded distributed dataset is split over the requested axis.
     A selection given while loading or copying picks exactly the same elements as applying it afterwards.""",
     ["inputs", "configurations", "histories"], "all trees, types, attributes, formats, compression settings, selections and communicator sizes",
     "the type and attribute conversions have many branches that tests sample once each, in one format and one process",
     [MEM, "caput/memdata/fileformats.py", "caput/util/typeutils.py"], [("deep_group_copy/_copy_to_file/copyattrs/get_h5py_File", MEM), ("MemGroup.from_hdf5/to_hdf5/from_file/to_file", MEM), ("_distributed_group_to_hdf5_serial/_distributed_group_from_file", MEM)])

prop("P10", "An output file appears complete or not at all, whatever fails in between",
     """A file written under the lock-file protocol only ever shows its previous content or the complete new content under its final name, at every point where the process may be
     interrupted or the writer may fail.  After a failed write neither the lock nor (unless asked to keep it) the temporary file stays behind, after a success only the final file remains, the original error
     reaches the caller, and with several ranks only the first touches the file system.""",
     ["crash_points", "fault_sequences", "inputs"], "all file names, prior directory contents, crash points, and errors raised by the body",
     "a test sees one run without faults; the guarantee is about every interruption point",
     ["caput/memdata/_io.py"], [("lock_file.__enter__/__exit__/tmpfile", "caput/memdata/_io.py")])

prop("P11", "File format and compression settings are resolved consistently",
     """The format inferred for a name depends only on it (Zarr for its known endings and for existing directories, HDF5 for its known endings, otherwise the given default), and the format
     resolved for an output never contradicts its name, the kind of data handle or an explicit request: a contradiction or an unknown request is an error.  Compression and chunk settings take effect as asked (same
     codec, block size and level) in whichever format is written, equivalent spellings mean the same, translating settings again changes nothing, requests that cannot be met are refused, and compressed data reads back identical.""",
     ["inputs", "configurations"], "all file names, explicit formats, compression names, options and chunk settings",
     "tests cover one compression per format",
     ["caput/memdata/fileformats.py"], [("guess_file_format/check_file_format/get_fileformat", "caput/memdata/fileformats.py"), ("HDF5/Zarr.compression_kwargs", "caput/memdata/fileformats.py")])

prop("P12", "A configuration is read faithfully or rejected",
     """Every declared configuration property of an object takes exactly the converted configuration value when present and its default otherwise, independently for each instance and through inheritance; a value of the
     wrong type, out of range, outside an enumeration or with the wrong number of elements is rejected with an error naming it, as are missing required keys and unused keys when asked for.
     Setting a property on one instance never changes another.""",
     ["inputs", "programs"], "all class hierarchies of declared properties and all configuration values",
     "the conversions have edge values (bounds, subclasses, empty lists, None) that tests do not enumerate",
     ["caput/config.py"], [("Reader.read_config/_finalise_config", "caput/config.py"), ("Property.__get__/__set__/_from_config", "caput/config.py"), ("enum/float_in_range/list_type/utc_time/logging_config", "caput/config.py")])

prop("P13", "Every pipeline task is set up, run and finished exactly once, in order",
     """In every run a task's setup is called exactly once with its requirements before anything else, its processing step once per set of inputs (or until it signals the end when it has no
     inputs, or its limit on outputs is reached), and its finish exactly once after all processing, after which it does nothing more.  A task that cannot get its requirements or inputs still ends, so the pipeline terminates, and
     iteration limits are respected. (Tasks are listed after the tasks whose keys they use.)""",
     ["histories", "configurations"], "all task graphs, stop signals, numbers of iterations and limits",
     "tests run a handful of two- and three-task pipelines",
     [PIPE], [("Task._pipeline_advance_state/_pipeline_next/_pipeline_inspect", PIPE), ("Manager.run/_next_task", PIPE)],
     [{"name": "state", "meaning": "requires/setup/next/finish/no_more_output", "where": PIPE}])

prop("P14", "Every product reaches every consumer once, in order, whatever the schedule",
     """Each value a task outputs under a key is delivered to every task that takes that key as input exactly once and in the order produced, at the
     position the configuration names it; requirements are delivered once.  The values each task receives do not depend on the order in which the manager happens to run the ready tasks, nor on the listing order or priorities of independent tasks.""",
     ["histories", "schedules", "programs"], "all acyclic task graphs, fan-out, lists of keys, and scheduling priorities",
     "queue bookkeeping is exercised only on linear pipelines by the tests",
     [PIPE], [("Task._pipeline_queue_product/_pipeline_next", PIPE), ("Manager._next_task/run/queue", PIPE)],
     [{"name": "_in queues", "meaning": "one FIFO per input position", "where": PIPE}])

prop("P15", "A mis-wired pipeline is rejected before it runs; a well-wired one is accepted",
     """A pipeline configuration in which an input or requirement is never produced, a key is produced twice, the number of keys does not fit what the task's
     methods take or return as declared, a task cannot be imported, or required keys are missing, is rejected with a configuration error before any task runs.  Every configuration without such a fault is accepted and each task
     gets exactly its own parameters merged with the shared ones.""",
     ["programs", "configurations"], "all pipeline configurations (task lists, key wiring, parameters)",
     "the validation has many combinations of in/out/requires and signature shapes",
     [PIPE], [("Manager._setup_tasks/_get_task_from_spec/_validate_task_inputs/add_task", PIPE), ("Task._pipeline_setup_keys / validate", PIPE)])

prop("P16", "Axis-based containers stay consistent under creation, copying and selection",
     """A container built from axes, from another container, or loaded with axis selections has exactly the declared datasets with the declared types, each dataset's shape equals the lengths of its axes,
     index maps are those given or inherited, and selecting on an axis by index, slice or range picks the same elements of the axis and of every dataset that has that axis, leaving the others unchanged.  A copy shares data only where
     sharing was requested.""",
     ["inputs", "configurations", "histories"], "all container classes built from axes and datasets, axis arguments, selections",
     "tests use one container class and a couple of selections",
     ["caput/containers/_core.py", "caput/containers/_basic.py", "caput/containers/_util.py"], [("ContainerPrototype.__init__/add_dataset/_make_selections/copy", "caput/containers/_core.py"), ("empty_like/copy_datasets_filter", "caput/containers/_util.py")])

prop("P17", "Joining time-ordered data concatenates the requested samples in order",
     """Concatenating time-ordered data sets yields along the time axis exactly the samples between the requested start and stop of the joined series, in order, for the time axis and for every
     time-ordered dataset alike; other datasets and attributes come from the first file, and filtering and selecting datasets or axes applies to all inputs equally.  The inputs and the caller's arguments are not modified.""",
     ["inputs", "configurations"], "all numbers and lengths of inputs, start/stop values (negative, out of range, None, per axis), dataset selections",
     "tests join a few equal files",
     ["caput/containers/tod.py"], [("concatenate/_start_stop_inds/_copy_non_time_data", "caput/containers/tod.py"), ("Reader", "caput/containers/tod.py")])

prop("P18", "Bit truncation stays within the requested error and only clears low bits",
     """Truncating integers, or single or double precision values and arrays (contiguous or strided, real, or complex by row) to a non-negative absolute, relative or weight-derived error changes every element by no more than that error:
     it becomes the nearest multiple of the smallest power of two (in units of its last place) that exceeds the error, with exact ties going to an even multiple. No finite value ever changes sign or becomes non-finite; zeros, and for
     any finite error infinities and NaNs, are kept; a zero error leaves real data bit-for-bit unchanged. Array functions work in place, treat each element on its own (using the fallback relative precision exactly where the weight is zero), and
     touch nothing else, for any number of threads.""",
     ["inputs"], "all 2^32 / 2^64 bit patterns of value and error, array lengths, strides, weights, precisions",
     "floating-point corner cases (denormals, exponent boundaries, infinities) are not reached by random tests",
     ["caput/util/truncate.hpp", "caput/util/truncate.pyx"], [("bit_truncate/bit_truncate_64/_bit_truncate_float/_bit_truncate_double", "caput/util/truncate.hpp"), ("bit_truncate_weights/relative/max_complex", "caput/util/truncate.pyx")])

prop("P19", "Weighted medians and quantiles match their definition, in every window",
     """The weighted quantile and median along the last axis of an array, and the moving-window median of one and two dimensional data, equal the textbook definition on exactly the elements inside the (edge-truncated) window: the element
     whose weight contains the target share of the total weight, and when the target lies exactly between two elements the mean of, the lower, or the higher of the two nearest elements with weight, as asked. Elements without weight never
     influence the result (unless none has weight: then all count equally in a quantile, and a moving window of more than one element gives NaN). Integers, single and double precision and any memory layout are accepted, the arguments are not modified,
     and mismatched shapes, even or negative window sizes and quantiles outside [0, 1] are refused.""",
     ["inputs"], "all data, non-negative weights, quantiles, window sizes and array shapes",
     "the incremental window tree has rotation and removal paths that sampled tests rarely reach",
     ["caput/algorithms/median/weighted.pyx", "caput/algorithms/median/MedianTree.hpp", "caput/algorithms/median/MedianTreeNode.hpp"],
     [("Tree insert/remove/weighted_median", "caput/algorithms/median/MedianTree.hpp"), ("weighted_median/quantile/moving_weighted_median", "caput/algorithms/median/weighted.pyx")])

prop("P20", "Guarded inversion: reciprocal where safe, exactly zero elsewhere",
     """The guarded inverse of every element is its reciprocal when its magnitude (for complex types, that of one of its parts) is above the smallest safely invertible value of its precision (one over the largest number)
     and exactly zero otherwise, so no finite element ever gives an infinity. Shape, precision and MPI distribution of the argument are kept (integers and booleans become double precision), numbers, lists and read-only arrays are accepted,
     a given output array of any memory layout is the one filled and returned (another shape is refused), and the argument is not modified.""",
     ["inputs"], "all element bit patterns, types, shapes, memory layouts of argument and output, distributed arrays",
     "values around the threshold and non-contiguous layouts are not sampled",
     ["caput/algorithms/_invert_no_zero/_invert_no_zero.pyx", "caput/algorithms/_invert_no_zero/__init__.py"], [("invert_no_zero", "caput/algorithms/_invert_no_zero/__init__.py"), ("_invert_no_zero", "caput/algorithms/_invert_no_zero/_invert_no_zero.pyx")])

prop("P21", "Spherical coordinate transforms are mutually inverse and preserve geometry",
     """Conversion between spherical and Cartesian coordinates follows the definition and is its own inverse for every vector but zero (radius not negative, theta in [0, pi], phi in [-pi, pi]), for arrays of any shape, memory layout and real
     type, and leaves its arguments alone. The theta and phi directions at a position are unit vectors in the sense of increasing angle, orthogonal to each other and to the position. Scalar products broadcast, great circle points lie at equal
     steps on the shorter arc from the first to the last point (also for equal points), the distance of two points is the angle between them, ground coordinates are the rotated unit vector and lead back to hour angle and declination, projected
     distances are scalar products with it, yaw-pitch-roll is the product of the three rotations, and normalisation acts in place on every element.""",
     ["inputs"], "all positions and vectors, array shapes and broadcasting",
     "tests check one or two positions",
     ["caput/astro/coordinates/spherical.py", "caput/astro/coordinates/_spherical.pyx"], [("sph_to_cart/cart_to_sph/thetaphi_plane/great_circle", "caput/astro/coordinates/spherical.py")])

prop("P22", "Text and bytes conversion is lossless, total and structure-preserving",
     """Converting data between byte strings and text (scalars, nested lists, tuples, sets and dictionaries, arrays, and structured types with nested fields, sub-arrays, titles or padding, of any byte order) changes only the
     string elements, keeps every collection type, order, shape, field name and non-string value, and leaves its argument alone; for arrays of ASCII text converting there and back is the identity. Data without strings to convert is
     returned as it is, and a type is reported to hold strings exactly when one of its (nested) fields does.""",
     ["inputs"], "all values, types with nested fields and shapes",
     "nested types are sampled once",
     ["caput/util/typeutils.py"], [("bytes_to_unicode/unicode_to_bytes/convert_dtype/has_kind/check_unicode", "caput/util/typeutils.py")])

prop("P23", "Parallel map and communication return every result in its place on every rank",
     """Mapping a function over a list in parallel (parallel_map) returns on every rank, or on the requested root alone, the list of results in input order, each item computed on exactly one rank, for every list length, number of ranks and
     division method (contiguous, alternating, random), on any communicator or none; the division itself (mpirange, partition_list_mpi) is disjoint, complete and balanced. Broadcast and reduction act as the MPI operation over several ranks and
     return the argument on one. Gathering local blocks puts each block into its place in the root's array and leaves the other elements alone; switching a row-split array to column-split gives each rank exactly its columns for every shape and
     element type; writing a row-split array to a file gives the dataset of the whole array, and nothing else of the file is overwritten. Sub-communicators contain exactly the ranks asked for, in that order, and waiting ranks wait until
     closed; log records pass exactly if they reach the level set for their rank; with the exception handler installed an uncaught exception on any rank ends the whole job.""",
     ["inputs", "configurations", "schedules"], "all list lengths, shapes, element types, communicator sizes, methods and roots",
     "tests run one size",
     [TOOLS], [("parallel_map/partition_list_mpi/mpirange", TOOLS), ("bcast/allreduce/gather_local/transpose_blocks/typemap", TOOLS), ("parallel_rows_write_hdf5/lock_and_write_buffer/allocate_hdf5_dataset", TOOLS), ("active_comm/active/close/MPILogFilter/enable_mpi_exception_handler/cpu_count/can_allocate", TOOLS)])

prop("P24", "Threaded random numbers depend only on the seed and fill every element",
     """The multi-threaded generator (MultithreadedRNG) produces, for a given seed and number of threads, the same numbers call after call whatever the schedule of the threads; every element of the requested shape, or of the array given to be
     filled (which is returned; one that cannot be filled in place is refused), is drawn exactly once from the requested distribution with the requested parameters and numpy's element type, and no block of numbers is repeated within a call or
     between calls. Scalar draws, small draws and array parameters behave as numpy's generator; an error in a thread is reported. Random tasks use a seed that depends only on the configured (or agreed) seed, the class and the rank,
     different on every rank.""",
     ["inputs", "schedules"], "all seeds, shapes, types, parameters, thread counts and thread schedules",
     "thread schedules are not controlled by tests; there are no tests of this module",
     ["caput/algorithms/random.py", "caput/pipeline/tasklib/random.py"], [("MultithreadedRNG._build_method/__init__/default_rng", "caput/algorithms/random.py"), ("RandomTask", "caput/pipeline/tasklib/random.py")])

prop("P25", "Task outputs are screened, labelled and written as configured",
     """Every container a container task emits, from each step or at the end and whatever the number of outputs, carries the configured attributes and tag with the documented substitutions (the tag falls back to that of the first input, then to
     the count) and the tags of its inputs. It is screened on all ranks together: exactly when a dataset holds a NaN or infinity on any rank it is dumped to disk and withheld, each only if so configured. It is written exactly when saving is
     configured for that output and it is not withheld, under the file name the template gives, with the configured format, compression and history. Nothing else is written, the data are never altered, and settings of the task are not
     modified. File-based group tasks read and write exactly the configured files in order and stop after the last; file-loading tasks yield every listed file once, in order, and the truncation task changes each element by no more than configured
     and leaves other datasets alone.""",
     ["inputs", "configurations", "histories"], "all container contents, output settings, numbers of outputs, iterations and ranks",
     "the tests cover one configuration each",
     ["caput/pipeline/tasklib/base.py", "caput/pipeline/extensions/_extensions.py", "caput/pipeline/tasklib/io.py"], [("ContainerTask.next/finish/_process_output/_nan_process_output/_nan_check_walk/_save_output/_interpolation_dict", "caput/pipeline/tasklib/base.py"), ("GroupIOMixin/ContainerIOMixin/SingleBase/IterBase", "caput/pipeline/extensions/_extensions.py"), ("LoadFilesFromParams/FindFiles/Truncate", "caput/pipeline/tasklib/io.py")])

prop("P26", "Selected copies between containers are exact and leave the source alone",
     """Copying datasets from one container to another with a per-axis selection copies every dataset of the source that has a selected axis (or every dataset, if asked) and no excluded axis: exactly the selected elements, in the
     order the selection gives, with the attributes of the dataset, whether the datasets are distributed or not. Other datasets of the destination, the source (contents, attributes and distribution) and the caller's selection object are left
     untouched, the copies are independent of the source, and slices, index lists or arrays and boolean masks that describe the same elements give the same result.""",
     ["inputs", "configurations"], "all containers, selections and axes, distributed or not",
     "tests cover one slice selection",
     ["caput/containers/_util.py"], [("copy_datasets_filter/empty_like", "caput/containers/_util.py")])

prop("P27", "A submitted pipeline job never overwrites earlier results unasked",
     """Queueing a pipeline whose job directory (in the working or the final location) already holds a job changes nothing and submits nothing with the policy "never", and with "failed" exactly when the
     job's STATUS says FINISHED; otherwise exactly the job directory, a verbatim copy of the configuration and the system's job script filled with the given settings (defaults of the system, directories
     and virtual environment with ~ and environment references expanded) are written, and the script is submitted if and only if asked, with the system's command and mail options. A job with missing,
     invalid or unknown settings, system, virtual environment, mail type or pipeline is refused before anything is written or submitted. A template gives one such job per element of the outer product
     of its variables' values.""",
     ["inputs", "configurations"], "all job settings, prior directory states and overwrite policies",
     "tests do not cover the submission path",
     ["caput/pipeline/runner/_core.py", "caput/pipeline/runner/_scheduler/__init__.py"], [("queue/_resolve_system_config/expand_path", "caput/pipeline/runner/_scheduler/__init__.py")])

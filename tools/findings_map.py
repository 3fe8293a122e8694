"""Which property each repair belongs to (subject of the fix commit)."""
MAP = {
    'resolve negative, numpy-integer and strided indices in MPIArray.global_slice': 'P02',
    'accept a negative distributed axis in MPIArray(), wrap and redistribute': 'P04',
    "MPIArray.gather of non-contiguous data, and wait on the root's own receive": 'P03',
    'gather_local on a single process indexed with a list of slices': 'P03',
    'distribution metadata of MPIArray.T and of transposes with None or negative axes': 'P04',
    'MPIArray.reshape on ranks holding no data': 'P04',
    'refuse accumulating over the distributed axis given as a negative index': 'P05',
    'length of an empty (or reversed) slice in distributed reads': 'P06',
    'chunked IO of an empty MPIArray': 'P07',
    'a path that continues below a dataset does not exist': 'P08',
    'dataset_common_to_distributed along an axis other than the first': 'P03',
    'keep the selection when deep_group_copy writes to a file': 'P09',
    'serialise numpy scalars inside dictionary attributes': 'P09',
    'load a file whose recorded container class cannot be imported': 'P09',
    'pass on the hints argument when writing a distributed group': 'P09',
    'keep sub-array fields when converting the strings of a structured type': 'P22',
    'lock_file when the body fails before the output exists': 'P10',
    'save a container that lives on disk to another file': 'P09',
    'load an open Zarr group into memory': 'P09',
    'name of the group returned by MemDiskGroup.create_group': 'P08',
    'save again what was loaded from a bitshuffle compressed file': 'P11',
    'read a config property redefined in a subclass with the new definition only': 'P12',
    'float_in_range accepted NaN': 'P12',
    'error raised for a logging config of the wrong type': 'P12',
    'file_format config property given as a string': 'P12',
    'tasks which take and return arrays': 'P14',
    'refuse extra outputs of a task with a single output key': 'P14',
    'use the key_pattern given in the pipeline config': 'P15',
    'report a config document without a pipeline block': 'P15',
    'report a task type that names no module as a config error': 'P15',
    'several tasks may have an empty `out`': 'P15',
    'name the property when a config value cannot be converted': 'P12',
    'report a missing input of a task without a type as a config error': 'P15',
    'do not share index maps between containers made from each other': 'P16',
    'index selections take precedence over map selections': 'P16',
    'keep array attributes of length one when writing Zarr files': 'P09',
    'load with index lists on several axes, or from Zarr files': 'P09',
    'distributed reads of index lists from Zarr files': 'P06',
    'load an empty index list from a Zarr file': 'P09',
    'start and stop beyond the ends when concatenating time-ordered data': 'P17',
    'do not modify the start and stop arguments of concatenate': 'P17',
    'concatenate a tuple of inputs': 'P17',
    'fill the time axis when concatenating into a group on disk': 'P17',
    'keep the history when concatenating time-ordered data': 'P17',
    'numpy integers as start and stop of concatenate': 'P17',
    'concatenate data with a distributed dataset without a time axis': 'P17',
    'do not share data between the result of concatenate and its first input': 'P17',
    'find the time axis of datasets in Zarr files': 'P17',
    'copy_datasets_filter modified the selection of the caller': 'P26',
    'index arrays, masks and empty selections in copy_datasets_filter': 'P26',
    'copy_datasets_filter from a common to a distributed dataset': 'P26',
    'copy_datasets_filter left the source redistributed': 'P26',
    'convert string types with padding, titles or foreign byte order': 'P22',
    'test nested structured types for strings': 'P22',
    'truncating the largest numbers and NaNs': 'P18',
    'truncation with zero weight set negative values to zero': 'P18',
    'keep inf and NaN when truncating arrays to a relative precision': 'P18',
    'truncation of very small values': 'P18',
    'invert_no_zero of Python numbers, lists, booleans and integers': 'P20',
    'fill the given output of invert_no_zero whatever its memory layout': 'P20',
    'invert_no_zero of read-only arrays': 'P20',
    'invert_no_zero of a value exactly at the threshold': 'P20',
    'quantiles at the ends of the data': 'P19',
    'lower and higher moving weighted medians': 'P19',
    'the moving median of a window without weight is NaN everywhere': 'P19',
    'check the shape of the weights of moving_weighted_median': 'P19',
    'empty data, negative sizes and other types in moving_weighted_median': 'P19',
    'quantiles of non-contiguous and read-only arrays': 'P19',
    'accept read-only arrays in the spherical coordinate routines': 'P21',
    'integer coordinates in cart_to_sph and thetaphi_plane': 'P21',
    'sph_dot broadcasts its arguments': 'P21',
    'norm_vec2 of non-contiguous arrays': 'P21',
    'great circle between equal or nearly equal points': 'P21',
    'projected_distance broadcasts all its arguments': 'P21',
    'random partitions over MPI ranks are disjoint and complete': 'P23',
    'write rows at their byte offset in parallel_rows_write_hdf5': 'P23',
    'transpose_blocks accepts any sequence as shape on one rank': 'P23',
    'cpu_count divides the cores of a node over its processes': 'P23',
    'allocate_hdf5_dataset with the dataset name given as text': 'P23',
    'multithreaded poisson draws are integers whatever their number': 'P24',
    'multithreaded generation into an existing array': 'P24',
    'log levels may be given in lower case': 'P25',
    'writing groups from pipeline tasks': 'P25',
    'task output into the current directory': 'P25',
    'cast task inputs which are empty or have no truth value': 'P25',
    'outputs of untagged inputs are tagged by their count': 'P25',
    'WaitZarrZip without any zip jobs': 'P25',
    'Truncate with weights of another type than the data': 'P25',
    'the error for an unknown queue system': 'P27',
    'jobs for the default PBS system': 'P27',
    'the default invoke_args of a queue system are used': 'P27',
    'the default profiler of queued jobs exists': 'P27',
    'a job which is refused leaves no job directory behind': 'P27',
    'a finished job which used a temporary directory is not run again': 'P27',
    'linting a pipeline with its own virtual environment': 'P27',
}
OPEN = []

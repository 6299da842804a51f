ARRAY = ['python/stempy/io/sparse_array.py']

prop('P09', 'Slicing a sparse array means slicing the dense array',
     'For every index expression that numpy accepts on the scan and frame axes (integers, slices with any step, '
     'ellipsis, boolean masks, index lists and their mixtures), indexing a SparseArray gives what indexing the dense '
     'array gives: a dense array when the scan position and a single frame part are fixed as documented, else a SparseArray of '
     'the same meaning. This holds for arrays with several frames per position, in all sequences of slices and other operations, and '
     'invalid indices are errors. A slice is a copy: changes of one array do not appear in the other.',
     ['inputs', 'histories'],
     'all index expressions, all contents (repeated and unsorted electrons, several frames), all dtypes and '
     'sequences of operations',
     'The tests compare some dozens of slices of one data set, most of which has to be downloaded.',
     ARRAY,
     [('SparseArray.__getitem__', 'python/stempy/io/sparse_array.py'),
      ('_slice_scan, _slice_frame', 'python/stempy/io/sparse_array.py')],
     ['SparseArray[...]', 'to_dense', 'raw data'],
     'TLA+ specification of the meaning of sparse arrays (TLC) + TLC-generated scripts + trace validation',
     'SparseArrayMC model checks that every operation on the representation refines the operation on the dense meaning. '
     'Scripts from GenCalls with random operands are run; TLC validates every observation.')

prop('P10', 'Binning a sparse array means binning the dense array',
     'bin_scans puts together the frames of each block of scan positions and bin_frames sums the pixels of each block '
     'of pixels, for every bin factor that divides the shape; other factors are errors. No electron is lost or '
     'invented, and the receiver changes only if in_place is given.',
     ['inputs', 'histories'],
     'all shapes, factors, contents, dtypes and sequences of operations',
     'The tests bin one data set, with square frames, twice.',
     ARRAY,
     [('bin_scans', 'python/stempy/io/sparse_array.py'), ('bin_frames', 'python/stempy/io/sparse_array.py')],
     ['bin_scans', 'bin_frames'],
     'TLA+ specification of the meaning of sparse arrays (TLC) + TLC-generated scripts + trace validation',
     'As P09. Non-square detectors, one-dimensional scans and repeated binning are covered.')

prop('P11', 'Reductions of a sparse array are those of the dense array',
     'sum, min, max and mean over any set of axes that the class supports (and over all of them) equal the reductions of the dense array, with '
     'the dtype of the array or the one that was asked for. Positions without electrons and repeated electrons count, and the reduction leaves '
     'the array as it was.',
     ['inputs', 'histories'],
     'all axes (negative ones too), contents, dtypes and preceding operations',
     'The tests reduce one data set.',
     ARRAY,
     [('sum, min, max, mean', 'python/stempy/io/sparse_array.py')],
     ['sum', 'min', 'max', 'mean'],
     'TLA+ specification of the meaning of sparse arrays (TLC) + TLC-generated scripts + trace validation',
     'As P09. Full frames (so that the minimum is not zero), empty positions and large detectors are covered.')

prop('P12', 'Reshaping keeps the meaning, and copies do not alias',
     'ravel_scans, reshape and assignments of the scan and frame shapes keep the frames in order, and impossible shapes are errors. '
     'Operations that return a new array never change the receiver or arrays derived from it, and operations in place change exactly the receiver. '
     'The attributes (shape, num_scans, num_frames_per_scan, num_pixels...) always agree with the data.',
     ['inputs', 'histories'],
     'all sequences of operations in place and not, on all derived arrays',
     'The tests do not look at the receiver after an operation, nor at sequences.',
     ARRAY,
     [('reshape, ravel_scans, in place operations', 'python/stempy/io/sparse_array.py')],
     ['SparseArray attributes and data after every operation'],
     'TLA+ specification of the meaning of sparse arrays (TLC) + TLC-generated scripts + trace validation',
     'As P09; all live arrays are observed after every operation of a script.')

COUNT = ['stempy/electron.cpp', 'python/stempy/image/__init__.py']

prop('P06', 'Counting while reading counts every frame exactly once and ends',
     'Electron counting with the threaded and the multi-pass readers counts every frame exactly once (those that are the samples '
     'of the thresholds and those that arrived early too), at the scan position of its header and with the final thresholds, whatever the schedule of the '
     'threads and the order of the frames, and it always ends: with the result, or with an error if there are fewer complete frames than sample '
     'blocks or the thresholds cannot be calculated. A reader that can be used again gives the same number of frames again.',
     ['schedules', 'inputs', 'histories'],
     'all schedules, orders, numbers of threads and of sample blocks, and lost data',
     'The tests count one data set, which has to be downloaded, and no error.',
     COUNT + ['stempy/reader.h', 'stempy/reader.cpp'],
     [('electronCount(T* reader, const ElectronCountOptions&)', 'stempy/electron.cpp'),
      ('readAll', 'stempy/reader.h')],
     ['electron_count', 'SparseArray.data'],
     'TLA+ specification of the counting protocol (TLC, all schedules) + trace validation under perturbed schedules',
     'ElectronCount model checks the protocol of workers and main thread: every frame once, no concurrent changes of a position, '
     'termination. Real counts run under perturbed schedules with numbers of sample blocks around the number of frames, and '
     'TLC validates every result.', hook=SCALE)

prop('P07', 'The electrons of a frame are the maxima of the thresholded pixels',
     'An electron is reported exactly at the pixels that, after subtraction of the dark reference, gain and the row dark algorithm, are between the thresholds '
     'and greater than all existing neighbours (edges do not wrap), once each and in ascending order. '
     'All readers and the public function agree on it for the same frames and thresholds, whatever the dtype or memory layout of the references. '
     'The result has the shapes of the scan and the frames.',
     ['inputs'],
     'all frames (also not square, of width or height one, the whole range of pixels), thresholds, references and options',
     'The tests compare the counts of one data set to stored numbers.',
     COUNT,
     [('electronCount', 'stempy/electron.cpp'), ('maximumPoints', 'stempy/electron.cpp'),
      ('applyRowDark', 'stempy/electron.cpp'), ('electron_count', 'python/stempy/image/__init__.py')],
     ['electron_count', 'SparseArray'],
     'TLA+ specification of the counting function (TLC) + exhaustive and random frames + trace validation',
     'CountingMC checks the function on all small frames (maxima are isolated, symmetries, monotonicity of the thresholds). All small frames and random ones are '
     'counted by the real code with every reader, and TLC evaluates the function for each.', hook=SCALE)

prop('P08', 'Thresholds are those of the sampled frames and are documented',
     'The statistics (minimum, maximum, mean, variance, standard deviation) are those of the requested number of sample frames out of the complete frames '
     'of the sample blocks, each of which can be among them, after dark and gain. The thresholds are mean and fit plus the given multiples of the standard deviations, '
     'and the fit of Gaussian noise finds its mean and width. The metadata of the counted data document '
     'the thresholds that were used and the options.',
     ['inputs', 'schedules'],
     'all frames, sample numbers, dark references, readers',
     'The tests compare thresholds of one data set with stored numbers.',
     ['stempy/electronthresholds.cpp'] + COUNT,
     [('calculateThresholds', 'stempy/electronthresholds.cpp'),
      ('electron_count', 'python/stempy/image/__init__.py')],
     ['calculate_thresholds', "metadata['electron_counting']"],
     'TLA+ specification of the statistics (TLC) + trace validation: some multiset of frames explains them',
     'The samples are random: TLC searches for a multiset of frames that explains the statistics, which have to be consistent with '
     'the thresholds and the counts.', hook=SCALE)

prop('P13', 'Counted data survives HDF5 files, and older versions keep their meaning',
     'Writing a SparseArray and loading it gives the same shapes, frames and metadata. Files of version 1 (repeated pixels) and 2 (any number of '
     'frames for a position, in any order) load as arrays with the same counts, and keep_flyback=False loads exactly the array without its last column. '
     'Writing to a file that has electron events already fails and changes nothing.',
     ['inputs', 'histories'],
     'all arrays with two scan dimensions, files of all versions, sequences of writes and loads',
     'The tests load one file of each version and compare a few numbers.',
     ['python/stempy/io/sparse_array.py', 'python/stempy/io/compatibility.py', 'python/stempy/io/__init__.py'],
     [('SparseArray.from_hdf5', 'python/stempy/io/sparse_array.py'),
      ('SparseArray.write_to_hdf5', 'python/stempy/io/sparse_array.py'),
      ('convert_data_format', 'python/stempy/io/compatibility.py')],
     ['SparseArray', 'electron_events/frames', 'electron_events/scan_positions', 'metadata'],
     'TLA+ specification of the file versions (TLC) + trace validation of files and arrays',
     'CountFilesMC checks the steps of loading (crop, separate, place) against the meaning of the file for all small files, and round trips. '
     'Sequences of calls from TLC are executed by the real code; the files are read by h5py and TLC compares files and arrays after each call.')

prop('P14', 'Raw HDF5 files have all frames at their positions, and are read back',
     'Converting sector files writes the frames that a reader has not delivered yet to their positions (the last one counts, missing ones are zero), as '
     'frames or as a data cube, with the scan dimensions. Saved raw data, with any dtype or layout, is read back by PyReader in '
     'order, in blocks of at most the block size, with its scan positions and dimensions, again after each reset. '
     'Saving never overwrites existing frames or images.',
     ['inputs', 'histories'],
     'all sets of sectors and saved arrays, block sizes, files with and without positions and dimensions, sequences of calls',
     'The tests read one file with PyReader and do not look at converted files.',
     ['stempy/reader.cpp', 'h5cpp/h5readwrite.cpp', 'python/pyreader.cpp', 'python/stempy/io/__init__.py'],
     [('SectorStreamReader::toHdf5', 'stempy/reader.cpp'), ('PyReader::read', 'python/pyreader.cpp'),
      ('save_raw_data, get_hdf5_reader, save_stem_images', 'python/stempy/io/__init__.py')],
     ['to_hdf5', 'write_hdf5', 'save_raw_data', 'save_stem_images', 'PyReader.read', 'contents of the files'],
     'TLA+ specification of files and block reader (TLC) + TLC-generated scripts + trace validation',
     'RawFilesMC checks writing frame by frame and reading in blocks with resets against the meaning of the file. Scripts of calls are executed '
     'with random sectors and arrays, and TLC validates every file, as read by h5py, and every block.', hook=SCALE)

prop('P15', 'STEM images are the sums of the pixels or electrons of each annulus',
     'A STEM image has, at every scan position, the exact sum of the pixels of its frame whose distance to the center is in [inner, outer) '
     '(65535 for each electron of sparse data), and zero without a frame: for every kind of reader, after '
     'resets, for arrays, HDF5 files, sparse arrays, also after they are changed, and electron counted data. '
     'Missing scan dimensions, and missing or unequal radii, are errors.',
     ['inputs', 'schedules', 'histories'],
     'all frames, block sizes, centers, radii, kinds of input, histories of reads and resets, and interleavings of the thread pool',
     'The tests compare single images with references; no other radii, centers, inputs or histories are seen.',
     ['stempy/mask.cpp', 'stempy/image.cpp', 'stempy/image.h', 'python/image.cpp', 'python/stempy/image/__init__.py'],
     [('createAnnularMask', 'stempy/mask.cpp'), ('createSTEMImages, calculateSTEMValues', 'stempy/image.cpp'),
      ('calculateSTEMValuesSparse', 'stempy/image.h'), ('create_stem_images', 'python/stempy/image/__init__.py')],
     ['values, shape and dtype of create_stem_images, and its errors'],
     'TLA+ specification of images (TLC) + trace validation of the functions',
     'ImagesMC checks laws of the specification (annuli partition a frame, sums of sparse and dense frames agree, work of concurrent tasks in any '
     'order). Random sources and sequences of calls run on the code, also with perturbed schedules, and TLC recomputes every image.', hook=SCALE)
prop('P16', 'Radial sums, averages and maxima are those of all delivered frames',
     'The radial sum of a position has, for each radius r, the sum of the pixels of all its frames with r - 1 < distance <= r. The average '
     'and maximum images are those of all frames that the reader delivers, the maximum after subtracting the dark reference. '
     'A radial sum without frames or scan dimensions is an error.',
     ['inputs', 'schedules', 'histories'],
     'all frames, centers, block sizes, readers, histories of reads and resets, and interleavings of the thread pool',
     'The tests do not call radial_sum with several frames at a position, or with other centers, and sample one average.',
     ['stempy/image.cpp', 'stempy/image.h', 'python/stempy/image/__init__.py'],
     [('radialSum, radialSumFrame', 'stempy/image.cpp'), ('calculateAverage', 'stempy/image.cpp'),
      ('maximumDiffractionPattern', 'stempy/image.cpp')],
     ['values and shapes of radial_sum, calculate_average and maximum_diffraction_pattern'],
     'TLA+ specification of images (TLC) + trace validation of the functions',
     'ImagesMC checks that rings partition a frame and concurrent additions in any order give the sums. Random sources and sequences '
     'of calls run on the code, also with perturbed schedules, and TLC recomputes every result.', hook=SCALE)
prop('P18', 'Histograms of STEM images count every pixel once',
     'The histogram of each STEM image has equally wide bins from its minimum to its maximum, and every pixel is counted in the one bin '
     'whose range includes it (the last one includes the maximum). The frequencies sum up to the number of scan positions.',
     ['inputs', 'histories'],
     'all images (also constant ones), numbers of bins, readers and histories',
     'The tests compare one histogram of one image with a reference.',
     ['stempy/image.cpp', 'python/stempy/image/__init__.py'],
     [('getContainer, createSTEMHistogram', 'stempy/image.cpp'), ('create_stem_histogram', 'python/stempy/image/__init__.py')],
     ['bins and frequencies of create_stem_histogram'],
     'TLA+ specification of images (TLC) + trace validation of the functions',
     'ImagesMC checks the specification; histograms of random sources are validated by TLC, which '
     'recomputes the image and counts with exact integer arithmetic.', hook=SCALE)

prop('P17', 'Analysis of counted data equals that of the same frames',
     'For every sparse array, also after slicing and binning: both versions of com_sparse give the center of mass of the electrons of all '
     'frames of a position, within the crop radius if there is one, and NaN or the mean for empty ones. Virtual dark fields, radial sums, '
     'diffraction patterns (also of masked positions) count each electron exactly once per aperture, bin or pixel. '
     'filter_bad_sectors replaces exactly the bad positions by local medians.',
     ['inputs', 'histories'],
     'all arrays (scan and frame shapes, empty and several frames per position), centers, radii, masks, histories of slicing and binning',
     'The tests use one array and mostly square frames; results are compared with references at single parameters.',
     ['python/stempy/image/__init__.py', 'python/stempy/io/sparse_array.py'],
     [('com_sparse, com_v1_kernel', 'python/stempy/image/__init__.py'), ('virtual_darkfield, radial_sum_sparse, mask_real_space, calculate_sum_sparse', 'python/stempy/image/__init__.py'),
      ('com_dense, filter_bad_sectors', 'python/stempy/image/__init__.py')],
     ['values and shapes that the functions return'],
     'TLA+ specification of the analysis (TLC) + trace validation of the functions',
     'SparseAnalysisMC checks laws of the definitions (dense = sparse, patterns and apertures add up, any order of the electrons) for all small arrays. '
     'Random arrays and calls run on the code, and TLC recomputes every result with exact arithmetic.', hook=SCALE)

prop('P19', 'Looking up a scan finds its file, and only its',
     'get_scan_path returns the file of a directory that has the requested scan number or id, threshold and suffix, together with the '
     'numbers in its name, for both versions of names, preferring version 1. Files of other scans, whose '
     'numbers only start with the same digits, or with another suffix, never match. No match, several matches, no number and unknown versions are errors.',
     ['inputs', 'histories'],
     'all contents of a directory (names of both versions, suffixes, thresholds, other files) and all requests',
     'The tests look up one file per version in a directory with only these files.',
     ['python/stempy/contrib/__init__.py'],
     [('get_scan_path_version_0, get_scan_path_version_1, get_scan_path', 'python/stempy/contrib/__init__.py')],
     ['the returned path and numbers, or the class of the error'],
     'TLA+ specification of the lookup (TLC) + trace validation of the function',
     'ScanFilesMC checks the specification for all small directories and requests. Random histories of creating and removing files and of lookups '
     'run on the code in a scratch directory, and TLC decides the only allowed answer of every lookup.', hook=None)
prop('P20', 'Pipelines get the given arguments and declared defaults',
     'A pipeline with declared parameters receives, for every call, the given argument of a parameter, or else its declared default, and never '
     'values of earlier calls or other pipelines. Its description lists its attributes and exactly its parameters.',
     ['inputs', 'histories'],
     'all declarations, all sequences of declarations and calls with any subset of the arguments',
     'The tests have no pipelines.',
     ['python/stempy/pipeline/__init__.py'],
     [('pipeline, parameter', 'python/stempy/pipeline/__init__.py')],
     ['arguments that the function receives, its result, and the attributes of the pipeline'],
     'TLA+ specification of pipelines (TLC) + trace validation of the decorators',
     'PipelinesMC checks that the nested wrappers give exactly the specified arguments. Random declarations and calls run on the code, and TLC validates '
     'what every function received and every description.', hook=None)
prop('P21', 'Counting with several processes equals counting with one',
     'When several MPI processes read the same files, together they read every frame exactly once (with the sectors that exist, as written), '
     'and every process knows the whole scan. electron_count takes samples of all of them, counts every frame with the thresholds of rank 0, '
     'and rank 0 returns the electrons of all frames at their positions. It never hangs, and it fails only if some process has fewer '
     'complete frames than its share of the samples or the thresholds cannot be calculated.',
     ['inputs', 'schedules', 'histories'],
     'all distributions of sectors over files and of frames over positions, numbers of processes and threads (also more processes than files, '
     'positions or samples), speeds of the processes, and sequences of calls',
     'MPI is not built or tested at all.',
     ['stempy/reader_mpi.cpp', 'stempy/electron_mpi.cpp', 'stempy/reader.h', 'stempy/reader.cpp', 'stempy/electron.cpp'],
     [('initMPI, gatherScanMap, partitionScanMap', 'stempy/reader_mpi.cpp'),
      ('gatherBlocks, broadcastThresholds, gatherEvents', 'stempy/electron_mpi.cpp'),
      ('electronCount (USE_MPI)', 'stempy/electron.cpp')],
     ['frames read by every process, electrons and metadata on rank 0, end of all processes'],
     'TLA+ specification of the processes and their messages (TLC) + trace validation of runs with several processes',
     'Distributed checks all interleavings of two and three processes (safety and termination). The real code is built with USE_MPI and an '
     'MPI of local processes (verif/mpi), with random delays; TLC validates what all processes together did.', hook=SCALE)
prop('P22', 'Phase reconstruction inverts the gradient',
     'For a periodic field of centers of mass (rows, columns), phase_from_com returns a real image of mean 0 whose discrete Fourier gradient is the '
     'part of the field that is a gradient (divided by 2 pi), after rotation by theta and the flip, damped by the regularization. It does not '
     'depend on the mean of the field, is linear and moves with the field, for all shapes; its input is not changed.',
     ['inputs'],
     'all fields, shapes, rotations, flips and regularizations',
     'No test uses phase_from_com.',
     ['python/stempy/image/__init__.py'],
     [('phase_from_com', 'python/stempy/image/__init__.py')],
     ['the returned image'],
     'TLA+ specification of the reconstruction in exact arithmetic (TLC) + trace validation of the function',
     'PhaseMC checks that the reconstruction of a gradient gives the phase, linearity, covariance and symmetries. For random integer fields with periods '
     '1, 2 and 4 (also repeated to larger images) and quarter turns, everything is rational, and TLC computes every pixel.', hook=None)

prop('P23', 'HDF5 files hold and return exactly what was written',
     'Groups, data sets (all numeric types, contiguous or chunked) and attributes that H5ReadWrite writes are in the file, with the type, dimensions and '
     'values that were given, and what it reads (whole data sets, strided blocks, attributes, types, dimensions, children, data sets below a group) is what is '
     'in the file, also if another program wrote it. Operations that cannot be done (no parent, an object that exists, a block outside of the data set, another '
     'type, several values for a single variable, a file opened for reading or closed) fail, without any effect on the file or on memory beyond the result.',
     ['histories', 'inputs'],
     'all sequences of operations on files, and all files with groups, data sets and attributes',
     'No test uses H5ReadWrite, except for reading one data set through a reader.',
     ['h5cpp/h5readwrite.cpp', 'h5cpp/h5readwrite.h', 'h5cpp/h5typemaps.h', 'h5cpp/hidcloser.h'],
     [('H5ReadWrite::H5ReadWriteImpl', 'h5cpp/h5readwrite.cpp'), ('updateData', 'h5cpp/h5readwrite.cpp')],
     ['what the operations return', 'the file, as another program reads it'],
     'TLA+ specification of files as maps from paths to objects (TLC) + trace validation of histories of operations',
     'H5FilesMC checks that files stay well-formed, that failed operations change nothing and that what is written is read. Random histories are run on '
     'files of H5ReadWrite and of h5py; TLC checks each result, with guards behind each buffer, and the content of the file that h5py finds.', hook=None)

prop('P24', 'Python threads can use the same objects at the same time',
     'If several Python threads call functions of stempy at the same time, also on the same arrays, sparse arrays and files, each call returns what it '
     'returns alone, no input is changed (neither its values nor its settings, not even for the time of the call), the reference counts of the inputs are '
     'those of before when all calls have returned, and every call returns. Each reader, when used by one thread only, is not disturbed by the others.',
     ['schedules', 'inputs', 'histories'],
     'all interleavings of the calls of several threads, of the workers that they start and of the lock of the interpreter, which most functions release',
     'No test uses more than one Python thread.',
     ['python/image.cpp', 'python/io.cpp', 'python/pyreader.h', 'stempy/image.cpp', 'stempy/electron.cpp', 'python/stempy/io/sparse_array.py',
      'python/stempy/image/__init__.py'],
     [('calculate_thresholds, electron_count (call_guard)', 'python/image.cpp'), ('PyReader', 'python/pyreader.h'),
      ('SparseArray.to_dense, default_full_expansion', 'python/stempy/io/sparse_array.py')],
     ['results of concurrent calls', 'reference counts and values of the inputs'],
     'TLA+ specification of threads, workers, the interpreter lock and reference counts (TLC) + trace validation of concurrent calls',
     'Threads checks, over all interleavings, that reference counts are exact, that inputs are not freed or changed and that all calls end, if references are '
     'changed with the lock only; a discipline that changes them without it violates Counted within a few states. The code runs 47 calls in two to four threads, '
     'built such that pybind11 asserts the lock at each change of a count; TLC validates the results against those of each call alone, and traces of readers '
     'and counting in threads against their own specifications.', hook=SCALE)

prop('P25', 'Arrays that the library returns keep their contents',
     'Every array that stempy returns (the data of blocks, STEM images, radial sums, averages, maxima, histograms, frames of electrons, '
     'results of the methods of sparse arrays and of reading files) has memory of its own: its values stay those it was returned with until '
     'the user writes to it or to a view of it, after readers, blocks, files and other objects it came from are gone and whatever else is '
     'computed. Writing to one array does not change another one, and no function changes its input arrays (data, dark references, gains, '
     'frames of sparse arrays).',
     ['histories', 'inputs'],
     'all sequences of functions, views, copies, writes and ends of objects, for all kinds of sources',
     'The tests compare each result once, directly after it was computed, while everything it came from still exists.',
     ['python/image.cpp', 'python/io.cpp', 'python/pyreader.h', 'stempy/image.cpp', 'stempy/image.h', 'python/stempy/image/__init__.py',
      'python/stempy/io/__init__.py', 'python/stempy/io/sparse_array.py', 'python/stempy/utils.py'],
     [('vectorToPyArray, def_buffer', 'python/image.cpp'), ('Block buffers', 'python/io.cpp'), ('safe_array', 'python/stempy/utils.py'),
      ('Image, RadialSum', 'stempy/image.h')],
     ['values of all arrays that are held'],
     'TLA+ specification of arrays, views and memory (TLC) + trace validation',
     'Ownership specifies arrays as indices into regions of memory: TLC checks that the values of an array change only with a write to its own region, and '
     'that a region lasts as long as an array uses it. The driver holds results of all kinds of functions and sources, makes views and copies, writes, drops '
     'objects, removes files and reuses free memory (which the C library overwrites); TLC validates the values of every array that is held after each step.',
     hook=SCALE)

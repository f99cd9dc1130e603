#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

prop("A01", "Array views index, slice, reshape and copy like abstract n-d arrays",
 "Every view obtained from an array by slicing, squeezing, unsqueezing or reshaping, in any order, has the shape and reads "
 "the elements the same operations give on an abstract n-dimensional array, also of more than 2^31 elements, and a single-element view reads as that one element. "
 "Writing through a view (fill or slice assignment, with broadcasting) changes exactly the addressed elements of the shared storage and no others. "
 "A copy (in memory or moved to another cpu device) has the same elements and is independent of its source, and the printed form lists the view's elements; a slice, axis or new shape that the array cannot provide is refused with an exception and changes nothing.",
 ["histories", "inputs"], "all ranks, shapes, element types, slice starts/ends/strides (negative indices included, and strides that do not divide the range) and all sequences of view, fill, assignment and copy operations",
 "The strided tests use a few hand-picked slices of float arrays; composition of views, negative indices and writes through views are not covered.",
 ["bland/bland/ndarray.cpp", "bland/bland/ndarray_slice.cpp", "bland/bland/ops/ops.cpp"],
 [("offset/stride/shape arithmetic of slice, squeeze, unsqueeze, reshape", "bland/bland/ndarray.cpp"), ("slice assignment copies into the view", "bland/bland/ndarray_slice.cpp"), ("strided element-wise copy", "bland/bland/ops/cpu/elementwise_unary_op.hpp")])

prop("A02", "Element-wise arithmetic is exact, broadcast and stride-blind",
 "Addition, subtraction, multiplication, division, square, square root and absolute value of arrays and scalars (scalar on either side) give, at every index, "
 "the result of the scalar operation on the operands' elements at that index, with trailing dimensions aligned and size-1 or missing dimensions broadcast. "
 "The result has the broadcast shape and the first array's element type and depends only on the logical elements, not on how the operands are laid out, sliced or shared; operands are never modified. "
 "Shapes that cannot be broadcast are rejected with an exception.",
 ["inputs"], "all operand shapes that broadcast or fail to, all supported element types, any sliced/strided/broadcast layout, scalars on either side",
 "Tests check contiguous or single-slice arrays with one shape per operator; scalar-left, rank-mismatched and mutually broadcast operands are not sampled.",
 ["bland/bland/ops/arithmetic.cpp", "bland/bland/ops/cpu/elementwise_binary_op.hpp", "bland/bland/ops/cpu/elementwise_scalar_op.hpp", "bland/bland/internal/include/internal/shape_helpers.cpp", "bland/bland/ndarray.cpp"],
 [("broadcast shape computation", "bland/bland/internal/include/internal/shape_helpers.cpp"), ("strided iteration", "bland/bland/ops/cpu/elementwise_binary_op.hpp"), ("scalar operators", "bland/bland/ndarray.cpp")])

prop("A03", "Comparisons give exact 0/1 masks, broadcast and with either operand order",
 "Each comparison (greater, greater-or-equal, less, less-or-equal, equal) of arrays, or of an array and a scalar on either side, gives a uint8 array of the broadcast shape whose element is 1 exactly when the relation holds for the operands' elements at that index and 0 otherwise. "
 "Bitwise-and of integers (array with array or with a scalar) gives the low 8 bits of the bitwise-and, element by element; the number of non-zero elements reported by counting equals the true number. Operands are unchanged and their memory layout is irrelevant.",
 ["inputs"], "all shapes, element types, layouts, scalar positions, including equal values and NaN",
 "The comparison tests cover array-versus-scalar on one contiguous array.",
 ["bland/bland/ops/comparison.cpp", "bland/bland/ops/cpu/comparison_cpu.cpp", "bland/bland/ops/cpu/comparison_cpu_impl.hpp", "bland/bland/ops/cpu/count.hpp"],
 [("comparison dispatch", "bland/bland/ops/comparison.cpp"), ("count", "bland/bland/ops/ops.cpp")])

prop("A04", "Reductions over any axes equal their mathematical definition",
 "Sum, mean, max, variance and standard deviation (of the N elements themselves: squares are divided by N), standardized moments (with N-1) over any subset of axes of any view, and the median of all its elements, equal their definitions computed on the logical elements, within rounding, and the result keeps the remaining axes in order. A result goes, complete, into an output array that was passed in, whatever its layout and element type (for whole numbers: where it fits). "
 "Reducing over all axes equals reducing over none listed, and the memory layout of the input does not matter. Axes that the array does not have or that are named twice, and an output array of another shape, are refused with an exception. The input is not modified.",
 ["inputs"], "all shapes, axis subsets, layouts and finite float data (integer data for sum, max)",
 "Tests reduce small contiguous or single-slice arrays over one or two axes.",
 ["bland/bland/ops/statistical.cpp", "bland/bland/ops/cpu/statistical_cpu.cpp", "bland/bland/ops/ops.cpp"],
 [("reduction over axes with strides", "bland/bland/ops/cpu/statistical_cpu.cpp")])

prop("A05", "Masked statistics see exactly the unmasked elements",
 "The masked mean, standard deviation, variance and mean-with-deviation of an array equal the unmasked statistic of just the elements whose mask is zero; the values under the mask have no influence at all. "
 "This holds for any memory layout of data and mask, for every non-zero mask value, and an all-zero mask gives the unmasked statistic. Everything masked is reported as an error, never as a number, and a mask of another shape than the array is refused.",
 ["inputs"], "all shapes, mask patterns, layouts of data and mask",
 "One masked test on contiguous data and one mask.",
 ["bland/bland/ops/statistical.cpp", "bland/bland/ops/cpu/statistical_cpu.cpp"],
 [("masked reductions", "bland/bland/ops/cpu/statistical_cpu.cpp")])

prop("A06", "Array creators and raw array files reproduce their specification exactly",
 "Zeros, ones, filled arrays, ranges (start + k step inside [start, end)), evenly spaced sequences (start + k (end - start) / n) and random creators give exactly the requested shape, element type and defined values (random ones: values and moments of the stated distribution). A range whose step does not lead to its end is refused. "
 "Writing an array of any layout and element type to a raw file replaces it by exactly the elements in row-major order; reading gives the whole elements the file holds and nothing else. A missing file or directory, or a disk that is full at any byte, is an error; calls of the system that are interrupted or transfer less than asked for change nothing.",
 ["inputs", "faults"], "all shapes, element types, parameters, layouts, file lengths; faults at any call",
 "Tests check one example of each creator and one file.",
 ["bland/bland/ops/creators.cpp", "bland/bland/ops/file_io.cpp"],
 [("creators", "bland/bland/ops/creators.cpp"), ("raw file io", "bland/bland/")])

prop("A07", "Deferred arrays evaluate to the value of their producer, as often as promised",
 "A deferred array yields exactly what its producer returns or the array it was given, whatever the order of reads, copies and assignments: an eager one runs its producer once, when constructed; a memoizing one once, on first use, and keeps the value for itself and its copies; a lazy one on each use. Nothing else runs a producer. "
 "A producer that throws is reported to the reader and nothing is kept; using an empty deferred array is an error.",
 ["histories"], "all sequences of construction, copying, assignment and use, producers that change or fail",
 "No test exercises deferred arrays.",
 ["bland/bland/ndarray_deferred.cpp", "bland/bland/include/bland/ndarray_deferred.hpp"],
 [("evaluation modes", "bland/bland/ndarray_deferred.cpp")])

prop("A08", "DLPack exchange exposes and adopts exactly the logical array",
 "Exporting an array view through DLPack describes exactly the view's logical elements (shape, strides, type and start); importing a DLPack tensor gives an array (and copies and views of it) with the same logical elements, including from producers that omit strides or use a byte offset. "
 "Memory is shared, not copied, in both directions. Exported memory stays alive until its deleter is called, even when the array is gone, and is then given back completely; importing borrows the producer's memory but not its shape and stride arrays.",
 ["histories", "inputs"], "all views, element types, export/import/copy/write/drop histories and foreign tensors",
 "Only the Python binding uses the exchange; no test does.",
 ["bland/bland/bland_tensor_internals.cpp", "bland/bland/ndarray.cpp"],
 [("to/from DLManagedTensor", "bland/bland/bland_tensor_internals.cpp")])

prop("B01", "A filterbank file is read exactly: samples, order and metadata",
 "Opening any well-formed HDF5 filterbank and reading a coarse channel gives exactly the stored samples of that channel's frequency range, in time-by-frequency order, whatever the storage layout, chunking or numeric storage type of the file, and every metadata value equals the stored attribute. "
 "Coarse channels partition the file: together they give each stored sample exactly once. Repeated or out-of-order reads give the same data, and a coarse channel index or block outside the file is rejected.",
 ["inputs", "histories"], "all file shapes, chunkings, stored types, metadata values, channelizations and read orders",
 "No test opens a filterbank file.",
 ["bliss/file_types/h5_filterbank_file.cpp", "bliss/core/scan.cpp", "bliss/core/coarse_channel.cpp"],
 [("hyperslab reads", "bliss/file_types/h5_filterbank_file.cpp"), ("coarse channel offsets", "bliss/core/scan.cpp")])

prop("B02", "Scan slices and frequency lookups stay consistent with the whole file",
 "A slice of a scan, and a slice of a slice, contains exactly the selected coarse channels of the original with the same samples and the same absolute frequencies, and its channel count and first frequency describe it. "
 "Looking up a frequency inside a scan (or slice) gives the index of the coarse channel whose range contains it, and a frequency outside gives none of its indices. Channels keep their number in the whole file. The original scan is unaffected by slicing.",
 ["inputs", "histories"], "all nested slice histories and all in-band frequencies, positive or negative channel spacing",
 "No test slices a scan or looks up a frequency.",
 ["bliss/core/scan.cpp", "bliss/core/cadence.cpp"],
 [("slice offsets", "bliss/core/scan.cpp slice_scan_channels"), ("frequency lookup", "bliss/core/scan.cpp get_coarse_channel_with_frequency")])

prop("B03", "Channelization inference always yields a usable exact partition",
 "For any number of fine channels and resolution, the inferred coarse channels are at least one in number and divide the fine channels exactly; published telescope channelizations give their known fine-per-coarse count. "
 "An explicitly requested fine-per-coarse count is always honoured. Opening a file never fails or crashes because of its number of channels.",
 ["inputs"], "all channel counts, resolutions and sampling times",
 "No test covers inference.",
 ["bliss/core/scan.cpp"], [("known channelization table and fallbacks", "bliss/core/scan.cpp infer_number_coarse_channels")])

prop("B04", "Damaged or incomplete input files give an error, never a crash or garbage",
 "Opening or reading a filterbank, hits, events, scan, observation or cadence file that is missing, truncated, corrupted, or lacks attributes or data either reports an error (an exception) or gives only data and metadata actually present in (or derivable from) the file; attributes needed to interpret the data that are missing or not a number are an error, those it can do without are not. Hits before the damage in a file of hits are read as written. "
 "It never crashes, hangs, reads outside its buffers, or reports uninitialised values.",
 ["inputs", "fault_sequences"], "all truncations, byte corruptions, and omissions of attributes or datasets",
 "No test feeds a malformed file.",
 ["bliss/file_types/h5_filterbank_file.cpp", "bliss/file_types/cpnp_files.cpp", "bliss/file_types/detail/raii_file_helpers.hpp", "bliss/core/scan.cpp"],
 [("attribute defaults", "bliss/core/scan.cpp"), ("exception on unreadable files", "bliss/file_types/")])

prop("B05", "Pipelines on scans are repeatable and never disturb the source",
 "A coarse channel read from a scan with a pipeline equals applying the pipeline's stages, in the order they were added, to the unprocessed channel, every time it is read and for every channel. "
 "Adding stages to a copy or a slice of a scan has no effect on the scan it came from, and processing a channel never alters the data, flags or estimates seen through other holders of that channel.",
 ["histories"], "all sequences of copying, slicing, adding stages and reading",
 "No test runs a pipeline.",
 ["bliss/core/scan.cpp", "bliss/core/coarse_channel.cpp", "bliss/preprocess", "bliss/flaggers", "bliss/estimators"],
 [("transforms applied per read", "bliss/core/scan.cpp"), ("coarse channel copies", "bliss/core/coarse_channel.cpp")])

prop("B06", "Observations and cadences keep their scans, targets and slices consistent",
 "Scans that agree on frequency setup are accepted into an observation or cadence and scans that disagree are rejected. "
 "Slicing an observation or cadence slices every scan in it identically and preserves order, target names and everything else.",
 ["inputs", "configurations"], "all combinations of scans and slices",
 "No test builds an observation from files.",
 ["bliss/core/cadence.cpp"], [("scan consistency check", "bliss/core/cadence.cpp"), ("observation/cadence slicing", "bliss/core/cadence.cpp")])

prop("C01", "Rolloff flagging marks exactly the band edges",
 "Flagging filter rolloff with a fraction marks every sample in that fraction of channels (rounded to whole channels) at each band edge with the rolloff flag and no other sample, at every time; a fraction of zero, or of less than half a channel, marks nothing. Samples and previously set flags are kept.",
 ["inputs"], "all band sizes, fractions and prior masks", "No test flags anything.",
 ["bliss/flaggers/filter_rolloff.cpp"], [("edge slices", "bliss/flaggers/filter_rolloff.cpp")])

prop("C02", "Spectral kurtosis and its flags follow the estimator and thresholds",
 "The spectral kurtosis of each frequency channel equals the generalized estimator evaluated over the channel's time samples and observation parameters, and each channel is flagged low (high) at all times exactly when its kurtosis is below the lower (above the upper) threshold. "
 "Other channels' flags, other flag types already present and the samples themselves are unchanged.",
 ["inputs"], "all data, sampling parameters, thresholds and prior masks", "No test computes spectral kurtosis.",
 ["bliss/estimators/spectral_kurtosis.cpp", "bliss/flaggers/spectral_kurtosis.cpp"], [("estimator", "bliss/estimators/spectral_kurtosis.cpp"), ("thresholding", "bliss/flaggers/spectral_kurtosis.cpp")])

prop("C03", "Sigma-clip and magnitude flags mark exactly the outliers",
 "Magnitude flagging marks exactly the samples above the threshold derived from the channel's data (or given). Sigma clipping marks exactly the samples outside the lower/upper multiples of the deviation around the mean of the not-yet-clipped samples, repeated for the requested iterations or until nothing changes, whatever the scale of the samples. "
 "Samples and other flags are unchanged, and flagging a scan flags its coarse channels as they are read.",
 ["inputs"], "all data, factors, iterations and prior masks", "No test flags outliers.",
 ["bliss/flaggers/sigmaclip.cpp", "bliss/flaggers/magnitude.cpp"], [("iterated clipping", "bliss/flaggers/sigmaclip.cpp"), ("threshold", "bliss/flaggers/magnitude.cpp")])

prop("C04", "Flags accumulate: none is lost, altered or invented by later flagging",
 "After any sequence of flagging steps, every sample carries exactly the union of the flags the individual steps assign to it; applying a step again changes nothing, and a flag never turns into another one. "
 "Flags applied through a scan's pipeline are the same as flags applied to the coarse channel directly.",
 ["histories"], "all sequences and repetitions of flaggers", "No test combines flaggers.",
 ["bliss/flaggers", "bliss/core/include/core/flag_values.hpp"], [("bit flags combined into the mask", "bliss/flaggers/*.cpp")])

prop("C05", "Noise estimates come from the unflagged samples only",
 "The estimated noise floor and noise power of a channel equal the mean and standard deviation over its samples, or over just its unflagged samples when masked estimation is requested; the values of flagged samples then have no influence, and a completely flagged channel is an error. "
 "The estimate is the same whichever interface computes it, and scaling all samples scales the floor and the deviation.",
 ["inputs", "configurations"], "all data, masks and options", "No test estimates noise.",
 ["bliss/estimators/noise_estimate.cpp", "bliss/core/noise_power.cpp"], [("mean and deviation", "bliss/estimators/noise_estimate.cpp")])

prop("C06", "Preprocessing rescales samples exactly and touches nothing else",
 "Normalization divides every sample by the channel's maximum; passband equalization divides each sample by the given response at its channel at every time. Shape, order, flags and metadata are unchanged, and processing through a scan equals processing the coarse channel directly.",
 ["inputs"], "all data and responses", "No test preprocesses data.",
 ["bliss/preprocess/normalize.cpp", "bliss/preprocess/passband_static_equalize.cpp"], [("division by maximum / response", "bliss/preprocess/")])

prop("C07", "The polyphase channelizer response is the folded filter response",
 "The response generated for a prototype filter and a channelization has one value per fine channel: the filter's power at that distance from the centre of a coarse channel, summed over all whole coarse channels of the band (aliases) and normalised to its largest value; it is symmetric about the centre. Designed filters are the windowed sinc of the requested cutoff. "
 "The power-spectrum helper it uses gives the squared magnitudes, centred on zero frequency, for even and odd lengths, without touching memory outside its arrays.",
 ["inputs"], "all filters, channel counts and lengths", "No test computes a response.",
 ["bliss/preprocess/passband_static_equalize.cpp", "bland/bland/ops/frequency.cpp", "bland/bland/ops/cpu/frequency_cpu_impl.cpp"], [("fft and folding", "bliss/preprocess/passband_static_equalize.cpp")])

prop("D01", "Drift integration is the mean power along each drift line",
 "Every cell of the integrated frequency-drift plane equals the sum, over time, of the input power found along the line that starts at that frequency and crosses the row's number of channels between the first and the last time, divided by the number of times; with desmearing each time contributes the mean over the row's desmear width of channels in the direction of the drift. Lines that leave the band contribute only what is inside (divided by the same number), in either direction. "
 "A noiseless tone of a searched drift rate therefore keeps its full power in its own cell and, for non-negative data, no cell exceeds the largest input sample. Views and other layouts of data give the same plane, and the input is not modified.",
 ["inputs", "configurations"], "all spectra, drift ranges, steps, signs and desmear settings",
 "No test integrates drifts.",
 ["bliss/drift_search/kernels/drift_integration_cpu.cpp", "bliss/drift_search/integrate_drifts.cpp"], [("per-drift line sums", "bliss/drift_search/kernels/drift_integration_cpu.cpp")])

prop("D02", "Per-cell flag counts equal the flagged samples along each drift line",
 "For every cell of the integrated plane, the reported count of each kind of flag equals the number of samples carrying that flag along the cell's drift line, using the same samples the integration uses; counts that do not fit into the 8 bits they are stored in stay at 255.",
 ["inputs"], "all masks (flags in any combination), drift ranges and desmear settings", "No test counts flags.",
 ["bliss/drift_search/kernels/drift_integration_cpu.cpp"], [("flag accumulation", "bliss/drift_search/kernels/drift_integration_cpu.cpp")])

prop("D03", "The drift-rate axis covers the requested range with the requested step",
 "The searched drift rates are exactly the rates from the low bound up to (not including) the high bound in the requested steps, each row's rate in Hz/s, in drift samples and its desmear width being mutually consistent with the channel width and sampling time and finite even for a single time sample. Rates are strictly ordered; an empty range or a non-positive step is an error.",
 ["configurations"], "all ranges, resolutions and observation parameters", "No test computes drift rates.",
 ["bliss/drift_search/integrate_drifts.cpp", "bliss/core/frequency_drift_plane.cpp"], [("drift info computation", "bliss/drift_search/kernels/drift_integration_cpu.cpp")])

prop("D04", "Connected-component search finds every region above threshold once",
 "The reported regions are exactly the connected components, under the L1 neighbourhood of the configured distance in rows and channels, of the cells whose signal-to-noise is above half of the threshold that contain a cell above the threshold, each once. Each is reported at its strongest cell with that cell's value, drift and flag counts, and with the width and centre of its cells in that row. Components in a binary mask are likewise exactly those of the given neighbourhood. The plane is not modified.",
 ["inputs"], "all planes, noise levels, thresholds and neighbourhood sizes", "No test searches for hits.",
 ["bliss/drift_search/kernels/connected_components_cpu.cpp", "bliss/drift_search/protohit_search.cpp"], [("breadth-first grouping", "bliss/drift_search/kernels/connected_components_cpu.cpp")])

prop("D05", "Local-maxima search reports exactly the peaks above threshold",
 "A cell is reported exactly when its signal-to-noise is above the threshold and no other cell within the configured L1 distance in rows and channels is larger, among the cells whose whole neighbourhood lies within the plane. Every reported peak carries its own value, position and drift.",
 ["inputs"], "all planes, thresholds and neighbourhood sizes", "No test searches for maxima.",
 ["bliss/drift_search/kernels/local_maxima_cpu.cpp"], [("neighbourhood comparison", "bliss/drift_search/kernels/local_maxima_cpu.cpp")])

prop("D06", "A hit's physical parameters follow from its cell and the scan's metadata",
 "Each hit's frequency, drift rate, power, signal-to-noise, bandwidth, start time, duration and coarse channel are the physical values of its cell under the scan's first frequency, channel width, sampling time, start time and noise estimate, for either sign of the channel width. A strong injected drifting tone gives a hit at its frequency and drift rate. No field is left undefined.",
 ["inputs", "configurations"], "all tones, metadata and search options", "No test produces hits from data.",
 ["bliss/drift_search/hit_search.cpp", "bliss/drift_search/protohit_search.cpp", "bliss/core/hit.cpp"], [("conversion from cell to hit", "bliss/drift_search/hit_search.cpp")])

prop("D07", "Hit filtering removes exactly the hits its criteria name",
 "Filtering keeps, in order and unaltered, exactly the hits that meet none of the enabled rejection criteria (zero drift, rolloff-flagged, low-kurtosis-flagged as configured), and filtering again changes nothing.",
 ["inputs", "configurations"], "all hit lists and option combinations", "No test filters hits.",
 ["bliss/drift_search/filter_hits.cpp"], [("predicates", "bliss/drift_search/filter_hits.cpp")])

prop("D08", "Event search reports exactly the signals seen ON target and not OFF",
 "Starting from each hit of the ON target (the first observation) that is not part of an event yet, in order of scans and hits, an event takes from each later ON scan the closest hit that is not part of an event, if it is within the matching distance (frequency at the middle of both and drift rate) of one of the event's hits. It is reported exactly when it has more than one hit and no hit of any OFF scan is within the matching distance of its hits on average: a signal present in several ON scans and no OFF scan is reported once, one also present OFF is not. Its start, end, first frequency and averages follow from its hits and their scans.",
 ["inputs", "configurations"], "all cadences of hit lists", "No test searches for events.",
 ["bliss/drift_search/event_search.cpp"], [("hit matching across scans", "bliss/drift_search/event_search.cpp")])

prop("S01", "Hit files return every hit as written",
 "Writing any list of hits to a hit file and reading it back gives the same hits in the same order with every stored field equal in the precision the format stores it (64-bit frequencies, drift rates and indices of 32 bits; single precision for the others), coarse channel included. Overwriting a file leaves only the new contents; a file that cannot be written completely (a disk that becomes full at any byte) or an unknown format is an error, and calls that transfer only a part or are interrupted change nothing.",
 ["inputs", "faults"], "all hit lists including empty and extreme values", "The round-trip tests use two fixed hits.",
 ["bliss/file_types/hits_file.cpp", "bliss/file_types/cpnp_files.cpp", "bliss/file_types/detail/cpnp_hit_builder.cpp"], [("Cap'n Proto serialization", "bliss/file_types/detail/cpnp_hit_builder.cpp")])

prop("S02", "Scan, observation and cadence files return structure, metadata and hits",
 "Writing a coarse channel, scan, observation or cadence with its hits and reading it back gives the same number and order of channels, scans and observations, the same metadata and the same hits for each, however the hits were produced (stored, found on demand, or by a pipeline on a file), for a channel without hits and for files of any size. A file that cannot be written completely is an error, and calls that transfer only a part or are interrupted change nothing.",
 ["inputs", "faults"], "all structures, sizes and metadata", "Only one coarse channel is round-tripped.",
 ["bliss/file_types/cpnp_files.cpp", "bliss/file_types/detail/cpnp_hit_builder.cpp"], [("Cap'n Proto serialization", "bliss/file_types/cpnp_files.cpp")])

prop("S03", "Event files return the hits of every event",
 "Writing any list of events and reading the file back gives the same number of events in the same order, each with the same hits in the same order. A file which ends early gives exactly the events which are complete in it, a file that cannot be written completely is an error, and calls that transfer only a part or are interrupted change nothing.",
 ["inputs", "faults"], "all event lists and truncation points", "No test writes events.",
 ["bliss/file_types/events_file.cpp", "bliss/file_types/detail/cpnp_hit_builder.cpp"], [("message per event", "bliss/file_types/events_file.cpp")])

prop("S04", "Text hit tables list every hit faithfully in order",
 "The text table written for a list of hits contains exactly one row per hit, in order, whose numbers equal the hit's values to the printed precision, in the columns its header names. The header reports the scan's source, file, start time, position (a valid sexagesimal angle within the printed precision), resolutions and length; start and resolutions are read back from it. A table that cannot be written completely is an error, and calls that transfer only a part or are interrupted change nothing.",
 ["inputs", "faults"], "all hit lists and metadata", "No test writes a table.",
 ["bliss/file_types/dat_file.cpp", "bliss/bliss_hits_to_dat.cpp"], [("table formatting", "bliss/file_types/dat_file.cpp")])

prop("P01", "The command line tools run the pipeline they are configured for",
 "The hit finder writes exactly the hits that the library's stages produce (normalize, passband equalization if given or else rolloff flagging, spectral kurtosis and sigma clip flags, masked noise estimate, drift integration, hit search, filtering out flagged and zero drift hits), whatever options configure them and in whatever order. It finds a drifting tone of sufficient strength away from the flagged edges of its coarse channel, at its frequency and drift rate, every hit lies inside the processed coarse channels and drift rates, restricting the run to some coarse channels gives exactly the hits of those, and repeating a run gives identical output. Every input file has an output with its hits: named after it by default, printed on '-', and several inputs with one output file are an error. hits_to_dat writes (or prints) the hits of its input, and the response generator the response of the channelizer it is given. Missing or broken inputs, impossible selections, unwritable outputs, wrong usage and a pipeline that fails end with an error code, not success or a crash.",
 ["inputs", "configurations"], "all tones, channel selections, options and input lists", "No test runs the command-line tools.",
 ["bliss/bliss_find_hits.cpp", "bliss/bliss_hits_to_dat.cpp", "bliss/bliss_generate_channelizer_response.cpp"], [("pipeline assembly", "bliss/bliss_find_hits.cpp")])

prop("P02", "Python array functions give what the C++ array library gives",
 "Every function of the Python array module, given arrays of numpy (any element order, negative or spread out strides, parts of larger buffers) or of the module itself, numbers and axes, gives the values, shape, element type and layout that the C++ array library gives for the same elements; whole numbers are taken exactly anywhere in their range, positive or negative. Operands are not changed. Arrays made from one another stay valid, and share elements exactly where they are views (numpy's view of a module array, reshape), whatever else is written, deleted or reused; pickling and copying an array, and writing it to a file and reading it back, give the same elements. Element types, devices, axes, shapes, masks and arguments that the module does not support raise an exception and leave the interpreter and the operands usable.",
 ["inputs", "histories"], "all array layouts, arguments and interaction histories", "The Python tests are not part of the reliable tests; they use a few dense arrays.",
 ["bland/python/pybland.hpp", "bland/bland/ndarray.cpp"], [("bindings", "bland/python/pybland.hpp"), ("array import", "bland/python/pybland.hpp nb_to_bland")])

prop("P03", "The Python pipeline module gives what the C++ library gives",
 "A history of pipeline calls from Python (opening scans, observation targets and cadences from files or from objects; reading coarse channels; slicing; normalizing, equalizing, flagging, estimating noise, integrating drifts, searching hits and events, filtering; replacing the parts of a target or cadence; changing fields of options, hits and events; writing and reading hits and events; encoding hits for plots; pickling hits, events and flag values) gives the values, arrays, metadata and files that the same history gives in C++, with the same objects shared and the same calls refused. Results stay valid and unchanged whatever happens to the Python objects they came from: deleted, reused, or replaced while parts are still held. Arguments of wrong types or values, missing files and impossible selections raise an exception and leave the interpreter usable.",
 ["histories", "inputs"], "all histories of calls and object lifetimes", "The Python tests are not part of the reliable tests, and none of them runs the pipeline with generated data.",
 ["bliss/core/include/core/pyblisscore.hpp", "bliss/drift_search/include/drift_search/pydrift_search.hpp"], [("pipeline objects", "bliss/core/include/core/pyblisscore.hpp"), ("search", "bliss/drift_search/include/drift_search/pydrift_search.hpp"), ("flaggers", "bliss/flaggers/include/flaggers/pyflaggers.hpp"), ("files", "bliss/file_types/include/file_types/pyfile_types.hpp")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))

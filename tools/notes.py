# READY: property -> what the check covers (level_note); TECH: deciding method; NA: reasons for unclaimed ones
READY = {
"A01": "random histories of views and writes against a cell-level model, CPU arrays of the four dispatched element types",
"A02": "generated operands (shape, type, layout, sharing, scalar side) against scalar C++ arithmetic at every index; results undefined by the language are not compared",
"A03": "generated operands against the relation at every index, all type pairs, NaN and equal values included",
"A04": "generated arrays, axes and outputs against double-precision definitions with error-derived tolerances",
"A05": "generated data and masks against the unmasked definition on the kept elements, plus the metamorphic relation that masked values do not matter",
"A06": "generated parameters against closed forms; files of every element type and layout against the row-major element list",
"A07": "random histories of construction, copy, assignment, reads and changing or failing producers against a state model with call counts",
"B01": "generated HDF5 filterbank files (types, attribute encodings, shapes, chunking) written by an independent writer, against the generated samples and metadata",
"B02": "generated files and channelizations, random slice histories and frequency lookups against a channel-number model",
"B03": "generated channel counts, resolutions and sampling times against divisibility and the table of published channelizations",
"B06": "generated groups of files with agreeing or differing setups, random observation/cadence slices, against a scan-list model",
"B05": "random histories of copies, slices, added stages (nine kinds, user-made ones included), reads and mutations by holders, against applying the stages to a private channel",
"C01": "generated channels, fractions, prior flags and layouts against the edge definition, through channel, scan, observation and cadence",
"C02": "generated channels, sampling parameters and thresholds against the estimator in long double; decisions within rounding are not judged",
"C03": "generated layered outliers against a reference clipping loop, exact scale invariance, thresholds given and derived",
"C04": "random sequences of flaggers against the bitwise union of what each assigns alone",
"C05": "generated samples, masks and options against mean and deviation of the unflagged samples, plus scaling and flagged-value-independence relations",
"C06": "generated channels and responses against division sample by sample, through every interface",
"C07": "generated signals, filters and channelizations against a direct DFT and folding in double precision",
"S01": "generated lists of hits with extreme values, overwritten files, paths given as views, unwritable targets; fields compared in the precision the format stores",
"S02": "generated structures (empty channels, slices, file-backed scans with pipelines, up to 10^6 hits) against the model they were built from",
"S03": "generated lists of events, truncation at every kind of offset, unwritable targets",
"S04": "generated scans with angles close to where sexagesimal parts turn over; every row and header field parsed and compared",
"A08": "random export/import/write/drop histories against the cell model, with AddressSanitizer and allocation accounting",
"D01": "generated spectra (all layouts, via every interface), drift ranges and desmear settings against line sums in double precision; exact-half-way channels either way",
"D02": "generated masks and drift ranges against counts along the same lines, up to more than 255 samples per line",
"D03": "generated ranges, steps and observation parameters against closed forms; empty ranges and bad steps must be errors",
"D04": "generated planes of exact signal-to-noise ratios and binary masks against a flood-fill reference",
"D05": "generated planes against the definition, every cell judged",
"D06": "generated planes against conversion formulas for every field; injected tones found end to end through integration and search",
"D07": "generated hit lists and structures against the criteria, filtering twice, through every interface",
"D08": "generated cadences: well-separated signals with known outcome, and crowded ones against a reference of the greedy matching",
"B04": "generated damage to HDF5 and Cap'n Proto files (attributes, structure, truncation, noise, changed bytes) under AddressSanitizer: an error, or exactly what is in the file",
"P01": "generated bands with tones and command lines run by the built tools: differential against the composed library stages, known tones recovered, restriction and repetition, and exit codes for generated failures",
"P02": "generated Python programs (operand layouts, arguments, object histories, unsupported uses) run in an interpreter with the AddressSanitizer build of the module, differential against the C++ library; scalars against exact integers",
"P03": "generated histories of pipeline calls and object lifetimes run in an interpreter with the AddressSanitizer build of the module, differential against the same history in C++ (every value, array, file and refusal)",
}
TECH = {
"A01": "stateful model-based property testing (random view/write histories vs a cell-level model)",
"A02": "property-based testing against a scalar reference model",
"A03": "property-based testing against a scalar reference model",
"A04": "property-based testing against a double-precision reference model",
"A05": "property-based testing: reference model and metamorphic relation",
"A06": "property-based testing: closed forms and file round-trips",
"A07": "stateful model-based property testing (random histories vs a call-counting model)",
"B01": "property-based testing: round-trip through an independent file writer",
"B02": "stateful model-based property testing over generated files",
"B03": "property-based testing against invariants and a reference table",
"B06": "stateful model-based property testing over generated sets of files",
"B05": "stateful model-based property testing (random pipeline histories)",
"C01": "property-based testing against a reference model",
"C02": "property-based testing against a reference model",
"C03": "property-based testing: reference model and metamorphic relation",
"C04": "stateful property-based testing: sequences of flaggers vs union of single flags",
"C05": "property-based testing: reference model and metamorphic relations",
"C06": "property-based testing against a reference model",
"C07": "property-based testing against a direct-DFT reference",
"S01": "property-based testing: file round-trip",
"S02": "property-based testing: file round-trip against a model",
"S03": "property-based testing: file round-trip with injected truncation",
"S04": "property-based testing: independent parser of generated tables",
"A08": "stateful model-based property testing under AddressSanitizer",
"D01": "property-based testing against a reference model",
"D02": "property-based testing against a reference model",
"D03": "property-based testing against closed forms",
"D04": "property-based testing against a flood-fill reference",
"D05": "property-based testing against a reference model",
"D06": "property-based testing: closed forms and injected signals",
"D07": "property-based testing against a reference model and idempotence",
"D08": "property-based testing: known outcomes and a reference model",
"B04": "fault-injecting property-based testing (damaged files under AddressSanitizer)",
"P01": "end-to-end property-based testing of the command line tools (differential and metamorphic oracles)",
"P02": "property-based testing with generated programs (differential oracle, stateful histories)",
"P03": "stateful property-based testing with generated programs (differential oracle against the C++ library)",
}
NA = {}

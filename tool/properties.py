"""The properties, in one place (see meta.py)."""
AI = "abstract interpretation of the type-checked AST"
NOTE = ("Static, all paths: every path of the analysed functions (loops "
        "widened, helpers inlined) is checked; trusts the clang front end "
        "and the models of the standard library. Constructs outside the "
        "abstract domain are listed as undecided in the evidence and raise "
        "no alarm. ")
PROPS = []


def prop(id, title, statement, over, forall, why, files, mech, tech=None,
         note="", na=None):
    p = dict(id=id, title=title, statement=statement, over=over,
             forall=forall, why=why, files=files, mech=mech,
             tech=tech or AI, note=NOTE + note)
    if na:
        p["na"] = na
    PROPS.append(p)


prop("C01", "Text is converted to numbers exactly or rejected",
     "Converting text to an integer or floating-point number yields exactly "
     "the number that the text denotes (decimal, or hexadecimal after 0x) in "
     "the requested type, and throws for anything else: empty "
     "text, trailing characters, values that do not fit the type, a negative "
     "number for an unsigned type. It never silently wraps, truncates, "
     "saturates or ignores part of the text.",
     ["inputs"], "all texts and all target number types",
     "The tests convert a handful of literals; wrap-around and range limits "
     "differ per type and per value.",
     ["common/StringTools.cc", "common/StringTools.h"],
     [("strToLong and relatives", "common/StringTools.cc"),
      ("rtrim / end pointer checks", "common/StringTools.cc")],
     note="Decides the errno/end-pointer/base/range protocol around the C "
     "library conversion, not the C library itself.")
prop("C02", "A typed parameter lookup returns the value stored for that key",
     "For every type and every key, looking up a parameter returns the value "
     "that is stored under that key converted to the requested type, the "
     "given default only if the key is absent, and an error if the key is "
     "absent and no default is given. A present but malformed value is an "
     "error; it is never replaced by the default. List lookups return all "
     "elements in order.",
     ["inputs", "configurations"], "all keys, types, defaults and stored "
     "values",
     "There are 13 types x (scalar, vector, default, no default) accessors; "
     "tests of the parameter set cannot even be built here.",
     ["common/ParameterSet.h", "common/ParameterSet.cc",
      "common/ParameterSetImpl.h", "common/ParameterSetImpl.cc",
      "common/ParameterValue.h", "common/ParameterValue.cc"],
     [("typed getters", "common/ParameterSetImpl.h"),
      ("conversion members", "common/ParameterValue.h")])
prop("C03", "Exactly the parameters that were never retrieved count as unused",
     "The list of unused parameters contains exactly the keys whose value was "
     "never retrieved through any accessor of the set or of a set it shares "
     "its contents with. Testing whether a key exists, or adding or "
     "replacing it, does not mark it as used; retrieving it under a "
     "different letter case does.",
     ["histories", "inputs"], "all sequences of lookups on all sets",
     "Users are warned about mistyped keys through this list; tests look at "
     "one lookup order at most.",
     ["common/ParameterSetImpl.cc", "common/ParameterSetImpl.h",
      "common/ParameterSet.h"],
     [("asked-keys record", "common/ParameterSetImpl.cc findKV"),
      ("unusedKeys", "common/ParameterSetImpl.cc")])
prop("C04", "Changes and usage records of parameter sets are race- and deadlock-free",
     "Every change of the contents of a parameter set and every access to "
     "its record of used keys happens under the set's lock, which is "
     "released on every way out. No operation locks the same set twice, so "
     "none can deadlock against itself.",
     ["schedules"], "all interleavings of operations on one set from several "
     "threads",
     "No test uses a parameter set from two threads.",
     ["common/ParameterSetImpl.h", "common/ParameterSetImpl.cc"],
     [("itsMutex", "common/ParameterSetImpl.h")],
     tech="lock typestate over abstract interpretation")
prop("C05", "Lists, records and quoted texts are split at top level only",
     "Reading a list or record value splits it at exactly the commas that "
     "are outside quotes and outside nested (), [] and {}, keeping every "
     "other character; surrounding blanks are dropped and an unbalanced "
     "bracket or quote is an error. Unquoting a string removes exactly the "
     "enclosing quotes, and reading a stream of key=value lines treats # and "
     "= inside quotes as text and stores every key it reads.",
     ["inputs"], "all value texts and parameter files",
     "The grammar is nested and unbounded; the tests reach no parser of it.",
     ["common/ParameterValue.cc", "common/StringTools.cc",
      "common/ParameterSetImpl.cc"],
     [("splitValue, getVector, getRecord, getString",
       "common/ParameterValue.cc"),
      ("skipQuoted, skipBalanced", "common/StringTools.cc"),
      ("readStream", "common/ParameterSetImpl.cc")],
     note="The array expansion shorthand (3*1, 1..5) is outside this "
     "check.")
prop("C06", "Names select the mode they name, and printed names can be read back",
     "Every calibration mode, solver algorithm, data use and least-squares "
     "solver has a documented name (plus older aliases) that selects exactly "
     "it, and any other text is rejected. The name printed for a value "
     "selects that same value when it is read back. The tables of an RCU "
     "mode (band name, frequency range, number) describe the same mode.",
     ["inputs", "configurations"], "all names and all enumerators",
     "The tables are hand-written, symmetric by convention only, and the "
     "tests never compare them.",
     ["base/CalType.cc", "ddecal/Settings.cc",
      "ddecal/linear_solvers/LLSSolver.cc", "common/NodeDesc.cc",
      "base/RcuMode.h"],
     [("StringToCalType, ToString", "base/CalType.cc"),
      ("ParseType", "ddecal/linear_solvers/LLSSolver.cc"),
      ("RcuMode tables", "base/RcuMode.h")],
     tech="table extraction by abstract interpretation of the parsers and "
     "printers")
prop("C07", "Sets of data fields obey the algebra of sets",
     "The sets of visibility fields (data, flags, uvw, weights) with which "
     "steps declare what they need and provide behave as sets: a field is in "
     "the set exactly if it was put there, union, intersection, equality and "
     "the propagation of requirements through a step (what is needed after "
     "it and not provided by it, plus what it needs itself) are exact for "
     "every field, and printing names exactly the members.",
     ["inputs"], "all combinations of sets",
     "Tests sample a few sets; the rule is per field and for all sets.",
     ["common/Fields.h", "common/Fields.cc"],
     [("Fields", "common/Fields.h"), ("operator<<", "common/Fields.cc")],
     tech="per-bit boolean evaluation of the abstractly interpreted set "
     "operations")
prop("C08", "Cluster and dataset descriptions survive writing and lookups are exact",
     "A node, cluster, or dataset (VDS) description that is written and read "
     "again has the same contents: every key is written under the name and "
     "from the member it is read into, a key is left out only if its member "
     "is empty and has a default, times keep their unit and offset, and "
     "parts keep their number. Looking up a node returns that node or "
     "fails; a file system without name or a mount point that does not "
     "start with / is refused; every file system of a node maps back to it; the file system of "
     "a file is the one with the longest mount point that equals leading "
     "directories of the file name, with the root as last resort.",
     ["inputs", "configurations"], "all descriptions, node names and file "
     "names",
     "Writers and readers live in different functions and no test builds "
     "these classes.",
     ["common/NodeDesc.cc", "common/ClusterDesc.cc", "common/VdsDesc.cc",
      "common/VdsPartDesc.cc"],
     [("NodeDesc::write / constructor, findFileSys", "common/NodeDesc.cc"),
      ("addNode, addNodes, getNode", "common/ClusterDesc.cc"),
      ("VdsPartDesc::write / constructor", "common/VdsPartDesc.cc")],
     tech="writer/reader relation extracted by abstract interpretation",
     note="The number of printed digits is outside this check; enumerator "
     "names are covered by C06.")
prop("C09", "Upsampled solutions repeat the solution valid at each time",
     "When directions have different numbers of solutions per interval, "
     "resampling produces for every fine time step, direction, antenna, "
     "polarization, frequency and constraint exactly the solution that was "
     "valid then: the number of steps is a common multiple of the counts "
     "(the largest count if it is a multiple of all, else the solution "
     "interval), every output element is written, from the element of its "
     "own direction's group, no index leaves an array, and values, weights "
     "and meta data stay together.",
     ["inputs", "configurations"], "all solution counts, sizes and times",
     "The index maps have six dimensions; the tests sample two layouts.",
     ["ddecal/SolutionResampler.cc", "ddecal/SolutionResampler.h"],
     [("SolutionResampler, Upsample, MapResampledToOriginal",
       "ddecal/SolutionResampler.cc")],
     tech="symbolic index maps of the loop nests, compared with the "
     "specified map over a grid of sizes",
     note="The extracted maps are evaluated for a grid of layouts (up to "
     "four directions, 1 to 6 solutions); they are not proved for all.")
prop("C10", "The least-squares solvers solve the problem they are given",
     "Each linear least-squares solver passes exactly the given system to "
     "LAPACK: the right routine for the selected solver, the dimensions, "
     "strides and right-hand sides of the given column-major matrices, "
     "buffers and workspace at least as large as the routine writes (the "
     "size it asked for), and it reports success exactly if the routine "
     "reported success. The normal equations solver forms A^H A and A^H B "
     "of all rows, columns and right-hand sides and returns the whole "
     "solution. An underdetermined system is refused by the QR solver.",
     ["inputs", "configurations"], "all matrix shapes and right-hand sides",
     "Errors in strides or buffer sizes only show for particular shapes and "
     "may corrupt memory silently; tests use one or two shapes.",
     ["ddecal/linear_solvers/QRSolver.h", "ddecal/linear_solvers/SVDSolver.h",
      "ddecal/linear_solvers/NormalEquationsSolver.h",
      "ddecal/linear_solvers/LLSSolver.cc"],
     [("Solve", "ddecal/linear_solvers/QRSolver.h"),
      ("Solve", "ddecal/linear_solvers/SVDSolver.h"),
      ("Solve", "ddecal/linear_solvers/NormalEquationsSolver.h"),
      ("Make", "ddecal/linear_solvers/LLSSolver.cc")],
     tech="LAPACK call protocol and symbolic normal equations extracted by "
     "abstract interpretation",
     note="LAPACK itself is trusted. The extracted calls are compared for a "
     "grid of shapes up to 7x4 with 3 right-hand sides.")
prop("C12", "Applying and subtracting models changes only the "
     "cross-correlations",
     "For any number of baselines and channels and any memory layout "
     "(strides), base::apply replaces every cross-correlation V by "
     "Jp V Jq^H with the Jones matrices of the baseline's own stations, and "
     "base::subtract replaces it by V - W M with the weights and model of "
     "the same baseline, channel and correlation. Autocorrelations and "
     "everything else stay untouched, the inputs are not modified, and the "
     "reported variances are the sums of the squared amplitudes of the "
     "parallel-hand (first and last) correlations that are not NaN, before "
     "and after, starting at zero. A cursor moved by any of its operations "
     "moves by whole strides of the dimension asked for.",
     ["inputs", "configurations"], "all baseline lists, channel counts and "
     "strides",
     "The kernels walk four cursors in parallel; a misplaced step only "
     "shows for several channels, autocorrelations between "
     "cross-correlations, or padded layouts.",
     ["base/Apply.cc", "base/SubtractMixed.cc", "base/Cursor.h"],
     [("apply", "base/Apply.cc"), ("subtract", "base/SubtractMixed.cc"),
      ("cursor, const_cursor", "base/Cursor.h")],
     tech="element-wise polynomials extracted by abstract interpretation "
     "with the cursors inlined, compared with the matrix formula over a "
     "grid of layouts",
     note="Floating point rounding is not modelled; the extracted loops are "
     "evaluated for seven layouts.")
prop("C11", "Baseline numbering is a bijection in the documented order",
     "For every number of antennas (up to 65535) and both orders, the "
     "baseline index functions agree with the documented enumeration: "
     "ComputeNBaselines counts all pairs including autocorrelations, "
     "ComputeBaselineIndex is symmetric and numbers the baselines 0..N-1 "
     "without gaps or duplicates in row- or column-major order, "
     "ComputeBaseline is its exact inverse, and ComputeBaselineList gives "
     "an antenna's baseline with every antenna, in antenna order.",
     ["inputs"], "all antenna counts up to 65535 and all baselines",
     "The inverse uses a floating point square root and integer narrowing; "
     "errors only show near group boundaries of large arrays, while the "
     "tests use five antennas.",
     ["common/baseline_indices.h"],
     [("ComputeNBaselines, ComputeBaselineIndex, ComputeBaseline, "
       "ComputeBaselineList", "common/baseline_indices.h")],
     tech="index terms (with integer widths and float precision) extracted "
     "by abstract interpretation, compared with the documented enumeration",
     note="Large arrays are compared at the group boundaries of six sizes "
     "up to 65535 antennas, small ones completely.")
prop("C13", "The end of the data reaches every step exactly once",
     "When the input is exhausted, every step of the chain is told so "
     "exactly once, in chain order: the driver calls finish on the chain "
     "after process has returned false and not before; every step that "
     "hands data to its next step finishes that step exactly once on every "
     "path through its finish function, after it has handed on everything "
     "it still held, and hands nothing on afterwards; and steps that feed "
     "chains of their own (split, demixer, BDA ddecal, h5parmpredict, the "
     "multi-MS reader) finish those too.",
     ["inputs", "histories"],
     "all step types, all paths through finish and all chains",
     "Losing the last buffers depends on the number of time slots, on "
     "branches in finish and on which steps follow; tests of single steps "
     "put a mock directly behind the step.",
     ["steps", "base/DP3.cc"],
     [("finish of every Step subclass", "steps"),
      ("Execute", "base/DP3.cc")],
     tech="typestate analysis over all paths of finish (own helpers "
     "followed) and of the driver",
     note="External libraries are replaced by permissive declarations, as "
     "they are not installed.")
prop("C14", "Steps declare the data fields they use and change",
     "Under every configuration of a step, the fields of the incoming "
     "buffer that its processing uses before it has made them itself are "
     "declared by getRequiredFields, and those it changes are declared by "
     "getProvidedFields: the reader only reads what the chain declares as "
     "required and the writer only writes what it declares as provided, so "
     "an undeclared use meets an empty field and an undeclared change is "
     "lost.",
     ["inputs", "histories"],
     "all step types with declarations, all combinations of the settings "
     "the declarations depend on, all paths through the processing code",
     "Whether an undeclared field happens to be there depends on the other "
     "steps of the chain; unit tests fill every field of their buffers.",
     ["steps"],
     [("getRequiredFields, getProvidedFields, process of every Step "
       "subclass", "steps")],
     tech="effect analysis per enumerated configuration over all paths of "
     "the processing code",
     note="A use whose path also depends on a setting that the declarations "
     "do not mention is listed as undecided. External libraries are "
     "replaced by permissive declarations, as they are not installed.")
prop("C15", "Steps hand each buffer on and never touch it afterwards",
     "A step that has handed a data buffer to its next step (or to a "
     "sub-step) never uses that buffer again, and on every path through its "
     "processing it hands the buffer on, stores it or takes over its "
     "contents: no time slot is lost or processed twice.",
     ["inputs", "histories"],
     "all step types and all paths through their processing",
     "The path that loses or reuses a buffer depends on the data, the "
     "settings and the number of buffers seen so far.",
     ["steps"],
     [("process of every Step subclass", "steps")],
     tech="typestate analysis of owning pointers over all paths",
     note="Steps that copy the contents of a buffer (averagers, BDA "
     "conversion) are checked to touch it on every path, not for what they "
     "copy. External libraries are replaced by permissive declarations.")
prop("C16", "Byte swapping and flag bits are exact",
     "Converting data of 2, 4 or 8 byte elements between byte orders "
     "reverses the bytes of every element, touches nothing beyond the given "
     "number of elements, and means the same in place and as a copy; data "
     "already in native order are copied unchanged. Packing flags puts flag "
     "i at bit startbit+i (bit 0 being the least significant of the first "
     "byte), keeps the bits before it and returns the number of bytes used; "
     "unpacking returns exactly these flags, for any number of flags and "
     "any start bit.",
     ["inputs"],
     "every element width and counts up to 4; flag counts up to 259 with "
     "start bits up to 23, for all contents",
     "All bit patterns, counts and start bits: unit tests sample a few (there "
     "are none here), and a wrong bit looks like ordinary data.",
     ["common/DataConvert.cc", "common/DataConvert.h"],
     [("dataConvert, dataConvert16/32/64, byteSwap*, boolToBit, bitToBool",
       "common/DataConvert.cc")],
     tech="abstract interpretation at bit level: every bit of the memory is "
     "an exclusive-or of symbolic bits, branches on data are joined",
     note="The sizes are enumerated up to the stated bounds; contents are "
     "symbolic.")
prop("C17", "Medians and kernel smoothing compute what they are named for",
     "The median of a list of n values is the middle value in ascending "
     "order for odd n, the mean of the two middle values for even n, and 0 "
     "for no values, in whatever order the values are given. Each smoothing "
     "kernel equals its definition up to a constant factor, and smoothing "
     "replaces every channel by the mean of the data weighted by the "
     "weights and the kernel at the (bandwidth corrected) frequency "
     "distance, over all channels, or when truncating over at least the "
     "channels nearer than half the bandwidth; a channel whose weights sum "
     "to zero becomes NaN.",
     ["inputs"],
     "medians: all orders of up to 11 values; kernels: a grid of distances; "
     "smoothing: any number of channels, data, weights and settings",
     "The result depends on the order of the values or on all channels "
     "together; a wrong rank or weight gives plausible numbers.",
     ["common/Median.h", "ddecal/constraints/KernelSmoother.h"],
     [("Median", "common/Median.h"),
      ("Kernel, Smooth", "ddecal/constraints/KernelSmoother.h")],
     tech="abstract interpretation in a domain of order statistics; "
     "smoothing loops as symbolic accumulations compared with the weighted "
     "mean",
     note="The window when truncating assumes ascending frequencies. "
     "Rounding is not considered.")

prop("C18", "Documented parameters are read as documented",
     "Every parameter that docs/schemas documents for a step is read by "
     "that step (or by an object that the step creates with its parameter "
     "set and prefix) under exactly the documented name, as the documented "
     "kind of value (boolean, integer, number, text, list), and has the "
     "documented default value when it is not given; and every documented "
     "step type name is accepted by the driver and creates the documented "
     "step.",
     ["inputs"],
     "all parameters of all step schemas; parameters read by libraries or "
     "embedded steps only, and defaults described in words, are undecided",
     "A parameter read under another name or with another default silently "
     "changes the processing of every run that relies on the manual; tests "
     "give the parameters they need under the name that the code uses.",
     ["docs/schemas", "steps", "ddecal/Settings.cc", "base/DP3.cc"],
     [("step constructors", "steps"), ("Settings", "ddecal/Settings.cc"),
      ("MakeSingleStep", "base/DP3.cc")],
     tech="interprocedural constant propagation of parameter keys from "
     "step constructors to the reads of the parameter set, compared with "
     "the documentation's tables",
     note="Which conditions a parameter is read under is not compared. The "
     "sources are analysed with declarations of the missing libraries "
     "replaced by stand-ins.")
prop("C19", "Iterations of parallel loops do not interfere",
     "The iterations of every parallel loop (over baselines, channel "
     "blocks, antennas, times, sources or directions) can run in any order "
     "and at the same time: a place in memory that one iteration writes is "
     "not read or written by another one, unless both hold the same lock or "
     "the object is made for concurrent use; counters, flags, work buffers "
     "and results are per iteration, per thread, or combined after the "
     "loop. So the results do not depend on the number of threads or the "
     "schedule.",
     ["inputs", "schedules"],
     "all parallel loops of the steps, solvers and constraints; functions "
     "called by the loop bodies are followed up to nine calls deep",
     "A lost update or torn value appears for some schedules only, and "
     "tests run small data sets that fit one chunk.",
     ["steps", "ddecal", "base"],
     [("loop.Run, recursive_for.Run", "steps/OnePredict.cc"),
      ("Solve", "ddecal/gain_solvers/ScalarSolver.cc"),
      ("Apply", "ddecal/constraints/TecConstraint.cc")],
     tech="effect and alias analysis of parallel loop bodies: access paths "
     "with subscripts abstracted by their dependence on the loop index and "
     "thread number, locksets, points-to for local objects",
     note="Library calls that cannot be followed are assumed to change only "
     "what is passed to them for writing. The sources are analysed with "
     "declarations of the missing libraries replaced by stand-ins.")
prop("C20", "Parameter sets hold what was read, stored, adopted or removed",
     "A parameter set contains exactly the parameters given to it. Reading a "
     "file, stream or text stores every 'key = value' line under the "
     "optional prefix plus its key with the value's full text, joins lines "
     "that end in a backslash, and skips comments and blank lines; a later "
     "definition replaces an earlier one. Adopting a set, arguments, a "
     "file or a text copies every parameter under the given prefix; making "
     "a subset copies all parameters that start with the base name (under "
     "the new prefix) and no others, and subtracting one removes exactly "
     "those. Adding refuses existing keys, replacing overwrites, removing "
     "removes that key only, and writing gives one 'key=value' line for "
     "every parameter, in a form that reads back. Two keys are the same "
     "parameter exactly when they are equal, in a case-insensitive set apart "
     "from upper and lower case; a set has the mode it was made with, and "
     "copying or assigning a set gives access to the same parameters.",
     ["inputs", "histories"],
     "all texts and histories of operations; the parsing of a value into "
     "numbers or vectors is C01, C02 and C05",
     "Steps are configured from sets that were read, adopted from the "
     "command line and cut into subsets; a parameter that is lost or "
     "assigned to another key silently changes what a run does.",
     ["common/ParameterSetImpl.cc", "common/ParameterSet.cc",
      "common/ParameterSet.h"],
     [("readStream, makeSubset, adoptCollection",
       "common/ParameterSetImpl.cc"),
      ("forwarding interface", "common/ParameterSet.h")],
     tech="path-sensitive abstract interpretation with widened loops: map "
     "changes, their key and value terms and path conditions per operation",
     note="Case-insensitive comparison of keys is taken from the mode "
     "argument; the choice of mode by callers is not checked.")


prop("C21", "Sky model components are kept and described as they were given",
     "A point or Gaussian source returns the direction, Stokes parameters, "
     "reference frequency, kind of spectral terms, rotation measure, axes "
     "and position angle that it was given, every constructor gives all its "
     "members a value, and a setter changes nothing else. A source shows "
     "itself to a visitor as the class it is. After ComponentInfo has "
     "inspected a component it describes exactly that component, whatever "
     "it described before: its position, Stokes parameters, reference "
     "frequency and type, its spectral terms followed by zeros (more than "
     "three terms are refused), and for a Gaussian its position angle and "
     "axes.",
     ["inputs", "histories"],
     "all arguments, numbers of spectral terms and sequences of inspections",
     "SagecalPredict inspects all sources of a patch with one ComponentInfo "
     "and predicts from what it describes: a value that is mixed up, "
     "undefined or left from the source before gives a wrong model.",
     ["base/ComponentInfo.cc", "base/GaussianSource.cc",
      "base/PointSource.cc", "base/Stokes.cc"],
     [("inspection", "base/ComponentInfo.cc update, visit"),
      ("setters and accessors", "base/GaussianSource.h, base/PointSource.h")],
     tech="abstract interpretation of constructors, setters and accessors; "
     "replay of ComponentInfo's loops from members with unknown contents",
     note="Directions, the evaluation of spectra at a frequency and the "
     "reading of sky model files are not part of it.")

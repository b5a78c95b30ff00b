"""Generates stubs/lax/lax.h: permissive declarations of the external
libraries (casacore, xtensor, ...) that are not installed, so that clang can
parse and type-check DP3's own code in the files that use them.  Every class
has every member in MEMBERS; calls return a value convertible to anything."""
import os

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, "..", "stubs", "lax", "lax.h")
MEM = os.path.join(HERE, "lax_members.txt")

# plain classes per namespace
CLASSES = {
    "casacore": """AipsError ArrayMeasColumn ArrayBase ColumnDesc
 ColumnsIndex
 DataManInfo DataManager DataManagerCtor Directory DirectoryIterator
 FileLocker HostInfo IncrementalStMan Input LSQFit LogIO LogMessage LogSink
 MBaseline MDirection MEpoch MFrequency MPosition MS MSAntenna
 MSAntennaColumns MSAntennaParse MSDataDescription MSField MSMainEnums
 MSObservation MSPolarization MSPolarizationEnums MSSelection MSFieldColumns
 MSSelectionErrorHandler MSSpectralWindow MSSummary MVAngle MVDirection
 MVEpoch MVPosition MVTime MeasFrame MeasTable Measure MeasureHolder
 MeasurementSet Muvw MVuvw MVBaseline Nutation Path Precession RXidentifier
 Record RecordInterface RecordGram RefRows Regex RotMatrix ScalarMeasColumnBase
 SetupNewTable Slicer Slice Sort StandardStMan SymbolicLink
 Table TableColumn TableCopy TableDesc TableExprNode TableIterator TableLock
 TableLocker TableRecord TableRow ROTableRow TiledColumnStMan Time Timer
 MSDataDescColumns MSSpWindowColumns MSPolarizationColumns MSMainColumns
 ArrayBaseColumn DataType_ File RegularFile MRadialVelocity TaQLResult Stokes
 MSMainColumns_ LSQaips RowCopier ROTiledStManAccessor TiledStManAccessor
 MSAntennaEnums MSColumns ROMSColumns DirectoryIterator_ TableParse
 MSSelectionKeywords StManAipsIO CanonicalConversion Conversion MDoppler
 MSColumns_ PrecisionTime DataManagerColumn JsonOut JsonParser ValueHolder
 TableError ConstantStMan MSStokes RegularFile_ ArrayColumnBase
 MSSource MSSourceEnums MSFeed MSFeedEnums MSFieldEnums MSSpectralWindowEnums
 MSDataDescriptionEnums MSObservationEnums MSPointingEnums MSStateEnums
 MSHistoryEnums MSProcessorEnums MSSourceColumns MSPointing ScalarMeasColumnA
 MSDopplerUtil MSPointingColumns MSFeedColumns MSObservationColumns
 MSPolColumns MSDataDescColumns_ MSAntennaColumns_ MSSourceIndex
 MSState MSHistory MSProcessor
 TableLog ScalarMeasDesc_ TableMeasRefDesc TableMeasValueDesc
 ExprNodeSet TableExprNodeSet TableExprNodeSetElem TableExprId BaseSlice
 """,
    "aocommon": """BandData ChannelInfo CoordinateSystem FitsBase FitsReader
 FitsWriter Image ImageCoordinates MultiBandData Polarization ThreadPool
 HMC4x4 Vector4 StaticForBase RecursiveFor Barrier Range HMatrix4x4""",
    "everybeam": """ATermSettings StationCoordinateSystem StationNode
 BeamNormalisationModeStub""",
    "everybeam::aterms": "ATermBase ATermConfig ParsetProvider",
    "everybeam::pointresponse": "PointResponse",
    "everybeam::telescope": "PhasedArray Telescope",
    "everybeam::coords": "CoordinateSystem ItrfConverter ITRFConverter",
    "aoflagger": """AOFlagger FlagMask ImageSet
 QualityStatistics Strategy""",
    "idg::api": """BufferSet BulkDegridder GridderBuffer options_type
 DegridderBuffer""",
    "predict": """BeamResponsePlan Direction GaussianSourceCollection
 GaussianSource PointSourceCollection PointSource Predict PredictPlan
 PredictPlanExecCPU Spectrum Stokes BeamResponse""",
    "pybind11": """arg array buffer_info buffer_protocol dict gil_scoped_release
 gil_scoped_acquire handle int_ list module module_ module_local object str
 function buffer tuple bytes scoped_ostream_redirect error_already_set
 keep_alive_base dtype iterable""",
    "schaapcommon": "RecursiveFor ThreadPool",
    "schaapcommon::facets": """Coord DS9FacetFile Facet FacetImage
 PixelPosition BoundingBox""",
    "schaapcommon::h5parm": "AxisInfo H5Parm SolTab TimesAndFrequencies",
    "schaapcommon::reordering": """ChannelRange FileWriter HandleData
 MSSelection""",
    "H5": """H5File Group DataSet DataSpace DataType CompType PredType StrType
 Attribute Exception DSetCreatPropList H5Object FloatType IntType""",
    "ducc0": "Params",
    "cu": "Context Device Stream Module DeviceMemory HostMemory Event Marker",
    "wsclean": "WSClean Settings InMemoryMs InMemoryPart CommandLine",
}
# class templates over an element type
ARRAYS = {
    "casacore": """Array Cube Matrix Vector Block ArrayColumn ScalarColumn
 ROArrayColumn ROScalarColumn ArrayIterator ReadOnlyArrayIterator PtrBlock
 ArrayColumnDesc ScalarColumnDesc Quantum RecordFieldPtr SumSqr
 TableMeasDesc ScalarMeasColumn MaskedArray MeasRef MeasConvert Sequence
 ScalarRecordColumnDesc CountedPtr FunctionParam GenSortIndirect""",
    "aocommon": "UVector Lane Queue OptionalNumber",
    "pybind11": "array_t",
    "predict": "Buffer",
}
# class templates over two types
PAIRS = {"casacore": "SimpleOrderedMap GenSortIndirect2 Map",
         "casacore_": ""}
# class templates <T, size_t>
TENSORS = {"xt": "xtensor xtensor_container_",
           "aocommon::xt": "Span UTensor"}
VALUES = {
    "casacore": """True False TpBool TpComplex TpFloat TpTable TpInt TpDouble
 TpString TpArrayFloat TpDComplex""",
    "aocommon": "",
    "everybeam": "",
}
FUNCS = {
    "casacore": """isFinite max min msAntennaGramParseCommand near nearAbs
 objcopy product tableCommand transpose amplitude sum ntrue nfalse allEQ
 anyEQ allTrue anyTrue fillPhase abs real imag phase conj convertArray
 isNaN square mean median variance stddev rms invert norm indgen partialMedians
 partialNTrue partialSums sqrt crossProduct dotProduct round reverseArray
 anyNE allNE allNear anyGT anyLT anyGE anyLE allGE allGT allLE allLT
 GenSort linearSearch linearSearchBrackets
 minMax reformArray concatenateArray convertArray2 fmod makeComplex
 binarySearch binarySearchBrackets sqr upcase downcase arrayTransform
 operator_""",
    "xt": """abs adapt all amax amin any arg argwhere broadcast cast conj empty
 equal filter filtration flatten flatten_indices flip imag isfinite isnan keep
 log log10 masked_view mean median nansum newaxis noalias pow prod range real
 reshape_view shape sqrt square stddev sum transpose vectorize view where zeros
 ones zeros_like ones_like norm_l2 norm_sq exp cos sin concatenate xtuple
 stack arange linspace row col strided_view ellipsis placeholders_ swapaxes
 isclose allclose count_nonzero drop index_view diff cumsum sort argsort
 unique full_like empty_like squeeze expand_dims fma eval minimum maximum
 norm variance logical_and logical_or logical_not accumulate
 quantile percentile argmax argmin eye cross isinf round repeat tile moveaxis
 dynamic_view dump_npy polar atan2 roll clip sign floor ceil nanmean nanstd""",
    "xt::linalg": "dot norm outer svd inv solve pinv lstsq det",
    "aocommon": """StringToLogVerbosityLevel Wavelength""",
    "aocommon::system": "ProcessorCount",
    "aocommon::xt": "CreateSpan",
    "everybeam": """CreateTelescope ElementResponseModelFromString Load
 ParseBeamMode ReadTileBeamDirection ToString ParseBeamNormalisationMode
 GetTelescopeType ConvertToString ParseElementResponseModel""",
    "pybind11": """cast init overload_cast get_override
 initialize_interpreter keep_alive return_value_policy_ isinstance print""",
    "schaapcommon::reordering": """MakeMetaFilesMap MakeRegularChannelMap""",
    "ducc0": "ms2dirty dirty2ms",
}
STATIC_FOR = "StaticFor DynamicFor ConstrainedStaticFor"


def words(s):
    return [w for w in s.split() if not w.endswith("_")]


def ns(n, body):
    return "".join("namespace %s {\n" % p for p in n.split("::")) + body + \
        "}" * len(n.split("::")) + "\n"


def main():
    members, types, consts = [], [], []
    with open(MEM) as f:
        for line in f:
            k, n = line.split()
            {"m": members, "t": types, "c": consts}[k].append(n)
    out = [open(os.path.join(HERE, "lax_head.h")).read().replace(
        "//MEMBERS", "\n".join(
            "  template <class... A> static Any& %s(A&&...);\n"
            "  template <class... A> static Any& %s("
            "std::initializer_list<Any>, A&&...);" % (m, m)
            for m in sorted(set(members)))).replace(
        "//TYPES", "\n".join("  using %s = Any;" % m
                             for m in sorted(set(types)))).replace(
        "//CONSTS", "\n".join("  static constexpr int %s = %d;" % (m, i)
                              for i, m in enumerate(sorted(set(consts)))))]
    for n, s in CLASSES.items():
        out.append(ns(n, "".join(
            "class %s : public ::lax::Any { public: using ::lax::Any::Any; "
            "%s(const ::lax::Any&); %s(::lax::Any&&); template <class T> %s& operator=(T&&); %s(); %s(const %s&); "
            "%s(%s&&); %s& operator=(const %s&); };\n"
            % ((w,) * 11) for w in words(s))))
    for n, s in ARRAYS.items():
        out.append(ns(n, "".join(
            "template <class T = ::lax::Any, class... R> class %s : public "
            "::lax::Arr<T> { public: using ::lax::Arr<T>::Arr; "
            "%s(const ::lax::Any&); %s(::lax::Any&&); "
            "template <class U> %s& operator=(U&&); %s& operator=(const T&);"
            " %s(); %s(const %s&); %s(%s&&); %s& operator=(const %s&); };\n"
            % ((w,) * 12) for w in words(s))))
    for n, s in PAIRS.items():
        if words(s):
            out.append(ns(n, "".join(
                "template <class K, class V> class %s : public ::lax::Any { "
                "public: using ::lax::Any::Any; };\n" % w
                for w in words(s))))
    for n, s in TENSORS.items():
        out.append(ns(n, "".join(
            "template <class T, std::size_t N, ::xt::layout_type L = "
            "::xt::layout_type::row_major, class... R> class %s : public "
            "::lax::Arr<T> { public: using ::lax::Arr<T>::Arr; "
            "%s(const ::lax::Any&); %s(::lax::Any&&); "
            "template <class U> %s& operator=(U&&); "
            " %s(); %s(const %s&); %s(%s&&); %s& operator=(const %s&); };\n"
            % ((w,) * 11) for w in words(s))))
    for n, s in VALUES.items():
        out.append(ns(n, "".join("constexpr int %s = 1;\n" % w
                                 for w in words(s))))
    for n, s in FUNCS.items():
        out.append(ns(n, "".join(
            "template <class... T, class... A> ::lax::Any %s(A&&...);\n" % w
            for w in words(s) if w != "newaxis")))
    out.append(open(os.path.join(HERE, "lax_tail.h")).read())
    with open(OUT, "w") as f:
        f.write("// generated by tool/mklax.py\n" + "\n".join(out))


if __name__ == "__main__":
    main()

T = "the 30 Python tests exercise a handful of fixed files and calls; "
prop("C01", "A requested slice equals the same sub-array of the whole variable",
 "For every dataset view (a file, or any chain of processing stages on top of it), every variable and every in-range hyper-rectangular request, the returned array holds exactly the elements of the full variable at those index ranges, in the same (first dimension fastest) order. Reading one position of the unlimited dimension gives exactly that position's slab of the full variable. (Text variables are not sliced; a stage that computes its values may deliver a slice in a wider floating-point type.)",
 ["inputs", "configurations"], "all readers, variables, dimension orders/sizes, start/size requests, data types",
 T + "no test compares slice requests with full reads over random shapes or stacked stages.",
 ["src/CDMReader.cc", "src/SliceBuilder.cc", "src/DataImpl.h", "include/fimex/RecursiveSliceCopy.h", "src/CDMExtractor.cc", "src/AggregationReader.cc", "src/io/netcdf/NetCDF_CDMReader.cc", "src/CDMInterpolator.cc", "src/NcmlCDMReader.cc"],
 [("slice copy", "include/fimex/RecursiveSliceCopy.h"), ("default slice assembly along unlimited dimension", "src/CDMReader.cc:getDataSlice")],
 ["CDMReader::getData", "CDMReader::getDataSlice(pos)", "CDMReader::getDataSlice(SliceBuilder)"])
prop("C02", "Index extraction returns exactly the selected source elements in order",
 "After restricting dimensions to chosen index sets or ranges, every variable's data equals the source data at exactly the selected indices of each restricted dimension (all indices of the others), in ascending order and standard layout; dimension lengths equal the number of selected indices, and attributes, types and untouched variables are unchanged. Selecting or removing variables changes which variables exist and nothing else, and selections outside the dimension are rejected with an exception.",
 ["inputs", "configurations"], "all shapes, all combinations of index sets (contiguous or with gaps) on any subset of dimensions, all read paths",
 T + "one extractor test checks a single contiguous reduction's length.",
 ["src/CDMExtractor.cc", "include/fimex/CDMExtractor.h"],
 [("chunk/slice joining", "src/CDMExtractor.cc:getDataSlice_"), ("dimension bookkeeping", "src/CDMExtractor.cc:reduceDimension")],
 ["CDMExtractor::getData*", "CDMExtractor::getCDM"])
prop("C03", "Extraction by time, level or lat/lon box keeps exactly the points inside",
 "Restricting by a time interval or vertical range (in any convertible unit, on ascending or descending axes) keeps exactly the axis positions whose value lies within the closed range (up to a rounding tolerance of at most 1 percent of the first axis step). Restricting by a latitude/longitude box keeps exactly the rows and columns that contain at least one grid point inside the box, including boxes crossing the 180 degree meridian. Coordinate and data variables stay consistent with each other; a dimension already reduced explicitly is not reduced again.",
 ["inputs", "configurations"], "all axis values, directions, units, boxes and projections",
 T + "fixed file, one box and one time range.",
 ["src/CDMExtractor.cc", "src/TimeUnit.cc", "src/Units.cc"],
 [("value range to index range", "src/CDMExtractor.cc:reduceAxes"), ("bounding box", "src/CDMExtractor.cc:reduceLatLonBoundingBox")],
 ["CDMExtractor::getCDM dimension lengths", "CDMExtractor::getScaledData of axes"])
prop("C04", "Writing to NetCDF and reading back reproduces the dataset",
 "For every dataset expressible in the chosen NetCDF format, writing it and opening the result yields the same dimensions (names, lengths, unlimited flag), variables (names, types, shapes), attributes (names, types, values) and bit-identical data, for every numeric and text type and any chunking or compression setting. (Dimensions used by no variable need not be kept; the unlimited dimension is the slowest one.)",
 ["inputs", "configurations"], "all dataset shapes, data types, attribute types, NetCDF versions, deflate/chunk options",
 T + "a few fixed variables are written; types, empty/unlimited dimensions and formats are not varied.",
 ["src/io/netcdf/NetCDF_CDMWriter.cc", "src/io/netcdf/NetCDF_CDMReader.cc", "src/io/netcdf/NetCDF_Utils.cc"],
 [("definition and data writing", "src/io/netcdf/NetCDF_CDMWriter.cc"), ("type mapping", "src/io/netcdf/NetCDF_Utils.cc")],
 ["files read back with CDMFileReaderFactory and independently with the netCDF C library"])
prop("C05", "Changing type, scale, offset or fill value preserves physical values",
 "Converting data (by API or by a writer configuration) from one (type, scale, offset, fill) to another preserves each physical value up to half a unit of the target quantum when representable, maps every missing value to the target's fill value and never maps a valid value to or from missing; integer targets are rounded to nearest, not truncated. (Missing values may become NaN in floating-point targets; fill values are representable in their type.)",
 ["inputs", "configurations"], "all source/target types, scales, offsets, fill values, data including NaN and fill",
 T + "only one scaled write is tested.",
 ["include/fimex/DataUtils.h", "include/fimex/MathUtils.h", "src/DataImpl.h", "src/Data.cc", "src/io/netcdf/NetCDF_CDMWriter.cc"],
 [("ScaleValue", "include/fimex/DataUtils.h"), ("rounding casts", "include/fimex/MathUtils.h"), ("writer config conversion", "src/io/netcdf/NetCDF_CDMWriter.cc")],
 ["Data::convertDataType", "Data::as*", "packed file contents"])
prop("C06", "Scaled and unit-converted reads equal the true physical values",
 "A scaled read returns scale_factor*raw+add_offset for valid raw values and NaN for missing ones; a read in another unit additionally applies the exact unit conversion, for linear and non-linear (e.g. logarithmic) units, in every read variant (full, slab, slice). Unit conversion functions agree with UDUNITS, are mutually inverse, and reject inconvertible units with an exception.",
 ["inputs", "configurations"], "all packing attributes, unit pairs, raw values and read variants",
 T + "no unit conversion is tested.",
 ["src/CDMReader.cc", "src/Units.cc", "include/fimex/DataUtils.h", "src/CDM.cc"],
 [("scaleDataOf / scaleDataToUnitOf", "src/CDMReader.cc"), ("Units::getConverter", "src/Units.cc")],
 ["CDMReader::getScaledData*", "Units::*"])
prop("C07", "Grid interpolation kernels compute the documented formula at every point",
 "For any field and any fractional grid position, nearest-neighbour, bilinear and bicubic interpolation return the documented combination of the surrounding grid values, exactly the grid value at grid points (bilinear uses the nearest column or row up to half a cell outside the edge), undefined when outside the grid or when a needed neighbour is undefined, and never read outside the field. One-dimensional linear, logarithmic, double-logarithmic and nearest interpolation between two layers and coordinate-to-index conversion likewise follow their documented formulas and extrapolation limits.",
 ["inputs"], "all field sizes (including 1-wide), positions inside/at/over the edges, NaN patterns, axes ascending/descending",
 T + "C kernels are only reached indirectly with interior points.",
 ["src/interpolation.c", "include/fimex/interpolation.h"],
 [("mifi_get_values_*", "src/interpolation.c"), ("mifi_points2position", "src/interpolation.c")],
 ["return values and output arrays of the C kernels"])
prop("C08", "Regridded fields equal the source field sampled at the projected points",
 "After changing projection, to target axes, lat/lon points, a template grid or a cross section, each output value equals the chosen interpolation of the source field at the location obtained by projecting the target point into the source grid; points more than half a cell outside the source domain are the variable's fill value, longitudes are treated cyclically on the sphere, and variables without horizontal axes pass through unchanged. The output coordinate axes carry exactly the requested values. (Values agree within single precision; search-based nearest-neighbour methods use the source point nearest on the sphere within their documented distance limit.)",
 ["inputs", "configurations"], "all projections, grid geometries, methods, variables with extra dimensions, packed types",
 T + "two interpolator tests check a few values.",
 ["src/CDMInterpolator.cc", "src/CachedInterpolation.cc", "src/reproject.cc", "src/interpolation.c"],
 [("cached interpolation with reduced domain", "src/CachedInterpolation.cc"), ("projection of target points", "src/CDMInterpolator.cc")],
 ["CDMInterpolator::getDataSlice, getCDM"])
prop("C09", "Forward regridding assigns each source value to exactly one target cell",
 "Forward interpolation puts each defined source value into the target cell nearest to its projected position and nowhere else: the sum method conserves the total of all source values that fall inside the target grid, and mean, median, min and max equal those statistics of exactly that set; cells without contribution are undefined, and the undef_* variants take undefined contributions into account as documented. Source points more than half a cell outside the target grid contribute nothing.",
 ["inputs", "configurations"], "all source point sets, values, NaN patterns, methods, number of layers",
 T + "forward interpolation is not executed by the running tests.",
 ["src/CachedForwardInterpolation.cc", "src/CDMInterpolator.cc"],
 [("cell assignment and aggregation", "src/CachedForwardInterpolation.cc")],
 ["createCachedInterpolation(...)->interpolateValues", "CDMInterpolator with forward_* methods"])
prop("C10", "Vector reprojection preserves speed and turns direction to the new axes",
 "Reprojecting a vector field keeps each vector's length and makes its direction the same geographic direction expressed along the target axes; projecting there and back restores the components, and direction angles are turned by the same rotation. Vectors undefined in either component stay undefined. (Projection-based methods, away from poles and singularities, both components in the same unit.)",
 ["inputs", "configurations"], "all projection pairs, positions away from poles/singularities, vectors",
 T + "no vector rotation test runs.",
 ["src/reproject.cc", "src/CachedVectorReprojection.cc", "src/CDMInterpolator.cc", "src/CDMProcessor.cc"],
 [("rotation matrix", "src/reproject.cc"), ("application", "src/CachedVectorReprojection.cc")],
 ["CachedVectorReprojection::reprojectValues", "CDMInterpolator data of x/y vector pairs", "CDMProcessor::rotate*"])
prop("C11", "Hole filling changes only undefined points and stays within data range",
 "Filling undefined grid points (Laplace relaxation or creep fill) never changes a defined value, leaves no undefined value when at least one (for relaxation: enough) defined value exists, produces (creep fill, and relaxation once converged) only values between the smallest and largest defined or default value, and reports the number of filled points correctly.",
 ["inputs"], "all field sizes, NaN patterns (all, none, borders, isolated), parameters",
 T + "filling is not executed by the running tests.",
 ["src/interpolation.c", "src/CDMInterpolator.cc"],
 [("mifi_fill2d_f, mifi_creepfill2d_f, mifi_creepfillval2d_f", "src/interpolation.c")],
 ["C API results", "CDMInterpolator pre/post-processing"])
prop("C12", "Vertical interpolation reproduces the profile between source levels",
 "Vertical interpolation yields, for every column, time and target level, the chosen (linear/log/loglog/nearest) interpolation of the source profile between the two enclosing source levels after converting the source vertical coordinate to the requested quantity; at a source level it yields that level's value, and target dimension, coordinate values and units are as requested. Outside the source levels the value is undefined or extrapolated as the method documents. (At least two source levels; single-precision accuracy.)",
 ["inputs", "configurations"], "all vertical coordinate types, level orders, target levels, methods, horizontally varying surface fields",
 T + "one test interpolates one variable to fixed levels.",
 ["src/CDMVerticalInterpolator.cc", "src/coordSys/verticalTransform/", "src/interpolation.c"],
 [("column loop", "src/CDMVerticalInterpolator.cc"), ("level converters", "src/coordSys/verticalTransform/")],
 ["CDMVerticalInterpolator::getDataSlice, getCDM"])
prop("C13", "Vertical coordinate transformations follow the CF/barometric formulas",
 "Every vertical transformation (sigma, hybrid sigma, ln-pressure, hybrid height, ocean s-coordinates, standard atmosphere, barometric, humidity and omega/w conversions) computes its documented formula for all inputs, and pairs documented as inverses invert each other.",
 ["inputs"], "all parameter values in the physical domain, all array sizes",
 T + "these are not executed directly by the running tests.",
 ["src/vertical_coordinate_transformations.c", "src/coordSys/verticalTransform/"],
 [("mifi_atmosphere_*, mifi_barometric_*, mifi_ocean_*", "src/vertical_coordinate_transformations.c")],
 ["C function outputs", "VerticalTransformation converters on datasets"])
prop("C14", "Time interpolation is exact at source times and linear in between",
 "After changing the time axis, each output field equals the source field at coinciding times and the linear interpolation in time of the two enclosing source fields otherwise (within the target type's precision); the new time axis contains exactly the requested times in the requested unit, and time-independent variables are unchanged. (Unlimited time dimension with ascending source times; beyond the ends linear extrapolation reaches one source interval, further out values are undefined.)",
 ["inputs", "configurations"], "all source/target time axes, units, data types",
 T + "time interpolation is not executed by the running tests.",
 ["src/CDMTimeInterpolator.cc", "src/TimeSpec.cc", "src/interpolation.c"],
 [("time mapping", "src/CDMTimeInterpolator.cc:changeTimeAxis")],
 ["CDMTimeInterpolator::getDataSlice, getCDM"])
prop("C15", "Time conversions follow the Gregorian calendar and invert each other",
 "Converting between unit times (e.g. hours since a reference), epoch seconds, calendar times and ISO text agrees with the proleptic Gregorian UTC calendar to the millisecond and round-trips; ordering of calendar times equals ordering of instants; malformed or out-of-range texts are rejected. (Years 1600 to 4000.)",
 ["inputs"], "all dates 1600-9999, units from seconds to days, reference times, texts",
 T + "no calendar conversion is tested beyond a few dates.",
 ["src/TimeUnit.cc", "src/FimexTime.cc", "src/TimeUtils.cc", "src/StringUtils.cc"],
 [("TimeUnit", "src/TimeUnit.cc"), ("FimexTime encode/parse", "src/FimexTime.cc")],
 ["TimeUnit::*", "FimexTime::*", "string2FimexTime"])
prop("C16", "Time and axis specifications expand to the documented value lists",
 "A textual axis or time specification expands to exactly the listed values with '...' filled in by the preceding step (up to and including the end when it lies on the grid), relative specifications are anchored as documented, and unparsable specifications (including a trailing or zero-step '...') raise an exception.",
 ["inputs"], "all lists, steps (positive, negative, fractional), ends, relative starts",
 T + "only one axis string is used.",
 ["src/SpatialAxisSpec.cc", "src/TimeSpec.cc", "include/fimex/TokenizeDotted.h"],
 [("tokenizeDotted", "include/fimex/TokenizeDotted.h")],
 ["SpatialAxisSpec::getAxisSteps", "TimeSpec::getTimeSteps", "tokenizeDotted"])
prop("C17", "Dataset metadata stays consistent under any sequence of edits",
 "Under any sequence of adding, renaming, removing and replacing dimensions, variables and attributes the metadata model behaves like the obvious name-keyed collections: lookups return what was last stored, duplicates and references to missing items are rejected without side effects, renames carry along attributes and shapes, removal removes attached attributes, and copies are independent.",
 ["histories", "inputs"], "all operation sequences and names",
 T + "metadata editing sequences are not tested.",
 ["src/CDM.cc", "src/CDMVariable.cc", "src/CDMAttribute.cc", "src/CDMDimension.cc"],
 [("CDM editing", "src/CDM.cc")], ["CDM public API after each operation"],
 technique="model-based history monitor: random edit sequences replayed against a reference map model, ASan+UBSan build")
prop("C18", "Aggregated datasets are the concatenation or union of their members",
 "Joining datasets along an existing dimension yields for each joined variable the members' data concatenated in member order, with the joined length the sum of member lengths; joining along a new dimension stacks one slab per member; a union exposes each variable with the data of the first member having it. Members that lack the variable or have a mismatching shape contribute fill values and never shift other members' data. (The unlimited dimension is the slowest one.)",
 ["inputs", "configurations"], "all numbers of members, lengths, shapes, variable sets, request slices",
 T + "aggregation is not executed by the running tests.",
 ["src/AggregationReader.cc", "src/NcmlAggregationReader.cc"],
 [("reader lookup by accumulated length", "src/AggregationReader.cc")], ["AggregationReader::getDataSlice/getCDM", "ncml aggregations"])
prop("C19", "NcML configuration applies exactly the described edits",
 "Reading through an NcML configuration yields the underlying dataset with exactly the requested removals, renames, type, shape, data and attribute changes: values of renamed variables equal the originals, type changes convert values, replaced values are those given, and everything not mentioned is unchanged.",
 ["configurations", "inputs"], "all combinations of edits over generated datasets",
 T + "NcML reading is not executed by the running tests.",
 ["src/NcmlCDMReader.cc", "src/NcmlUtils.cc", "src/XMLDoc.cc"],
 [("init* edit passes", "src/NcmlCDMReader.cc")], ["NcmlCDMReader::getCDM/getData*"])
prop("C20", "NcML text restores the dataset it was written from",
 "Writing a dataset as NcML with values and reading that text back gives the same dimensions (lengths, unlimited flag), variables (types, shapes), attributes and values bit for bit, for all numeric types and string lists and for names and strings with special characters; unwritten data appear as fill values. (Empty strings, character-array variables and the _Unsigned marker itself are outside.)",
 ["inputs"], "all names, types, attribute values (including special characters), data",
 T + "the format is not exercised by the running tests.",
 ["src/NcmlCDMWriter.cc", "src/NcmlCDMReader.cc", "src/NcmlUtils.cc", "src/XMLUtils.cc", "src/Type2String.cc"],
 [("NcmlCDMWriter", "src/NcmlCDMWriter.cc"), ("text of numbers", "src/Type2String.cc")], ["re-read dataset vs original"])
prop("C21", "Merging uses the inner grid inside, the outer outside, and blends between",
 "A merged field equals the inner dataset where only it applies, the outer dataset where the inner is not defined, and in the transition zone a convex combination of the two following the configured smoothing; undefined inner values fall back to the outer (unless disabled in border smoothing) and the target grid is the one requested. Values equal to the fill value count as undefined.",
 ["inputs", "configurations"], "all grid geometries, smoothing parameters, NaN patterns",
 T + "one merge checks only grid sizes.",
 ["src/CDMMerger.cc", "src/CDMOverlay.cc", "src/CDMBorderSmoothing.cc", "src/CDMBorderSmoothing_Linear.cc", "src/CDMMergeUtils.cc"],
 [("smoothing", "src/CDMBorderSmoothing_Linear.cc"), ("overlay", "src/CDMOverlay.cc")], ["CDMMerger/CDMOverlay/CDMBorderSmoothing::getDataSlice"])
prop("C22", "Quality extraction masks exactly the values with a rejected status",
 "With a quality configuration every value whose status is not accepted becomes the configured fill value and every other value is unchanged, for each combination of status flags/values and fill configuration; unconfigured variables are unchanged. A status field may live in another file and may have only the leading dimensions of the data.",
 ["inputs", "configurations"], "all status fields, accepted flag sets, packed/unpacked data",
 T + "quality extraction is not executed by the running tests.",
 ["src/CDMQualityExtractor.cc"], [("masking", "src/CDMQualityExtractor.cc")], ["CDMQualityExtractor::getDataSlice"])
prop("C23", "Accumulation and de-accumulation are running sums and differences",
 "Accumulating a variable along the unlimited dimension gives at step n the sum of source steps 0..n, de-accumulating gives the difference to the previous step, the two are mutually inverse, access order does not matter, and other variables are unchanged. (Undefined values at the first step count as 0; NaN as fill value, no add_offset.)",
 ["inputs", "histories"], "all series, types, NaN patterns and access orders",
 T + "the processor is not executed by the running tests.",
 ["src/CDMProcessor.cc"], [("accumulate/deAccumulate", "src/CDMProcessor.cc")], ["CDMProcessor::getDataSlice"])
prop("C24", "Pressure-related derived variables equal their physical definitions",
 "Derived variables (temperature from potential temperature, vertical wind from omega, 4-dimensional pressure, geopotential height, vertical velocity) equal the documented formula evaluated on the source fields at every grid point, level and time; missing inputs give missing outputs.",
 ["inputs", "configurations"], "all vertical coordinates, fields and sizes",
 T + "not executed by the running tests.",
 ["src/CDMPressureConversions.cc", "src/CDMProcessor.cc"], [("conversions", "src/CDMPressureConversions.cc")], ["CDMPressureConversions::getDataSlice", "CDMProcessor::getDataSlice"])
prop("C25", "GRIB reading and writing preserve fields, grids, times and levels",
 "Reading GRIB (edition 1 or 2) gives, for every message, its values and missing points at the variable, time, level and ensemble member it encodes, on grid positions (axes, projection, lon/lat) equal to those the message's keys define, whatever the scan mode, message order or number of files; times/levels/members without a message are undefined. Writing a dataset as GRIB produces exactly one message per field with values (empty fields only if configured), with values in the configured unit within packing precision, the same missing points, grid positions, reference/valid time and level, and reading it back restores the fields. (Scan modes without alternating rows; regular_ll, rotated_ll, lambert, mercator and polar_stereographic grids; writing: the projections the writers implement.)",
 ["inputs", "configurations"], "all grids, projections, scan modes, levels, times, members, missing patterns, editions",
 T + "GRIB code is compiled but never run by the tests.",
 ["src/io/grib/GribApiCDMWriter_Impl1.cc", "src/io/grib/GribApiCDMWriter_Impl2.cc", "src/io/grib/GribCDMReader.cc", "src/io/grib/GribFileIndex.cc", "src/io/grib/GribCDMIndexer.cc"],
 [("encoding", "src/io/grib/GribApiCDMWriter_ImplAbstract.cc"), ("indexing", "src/io/grib/GribFileIndex.cc")], ["GRIB files read back by fimex and by ecCodes"])
prop("C26", "A GRIB index describes exactly the messages of the GRIB file",
 "Indexing a GRIB file, writing the index (XML or protobuf) and reading it back yields the same ordered set of messages with identical keys and offsets, equal to those stored in the file, and reading the dataset through the index gives the same metadata and data as reading the GRIB files directly. File names may contain any characters.",
 ["inputs"], "all message sets, multi-file indexes, appended indexes",
 T + "GRIB code is never run by the tests.",
 ["src/io/grib/GribFileIndex.cc", "src/io/grib/GribProtobufIndexWriter.cc", "src/io/grib/GribProtobufIndexReader.cc"],
 [("index serialisation", "src/io/grib/GribFileIndex.cc")], ["GribFileIndex::listMessages", "reader through .grbml"])
prop("C27", "Felt fields are decoded to the stored values at the right time and level",
 "For a well-formed felt file, each variable's data at each time and level equals the stored integers scaled by the stored exponent (missing codes become the fill value), on the axes and projection described by the file's grid parameters; parameters absent at a time, level or ensemble member are undefined; a parameter whose fields disagree in grid, or in scale for packed output, is refused. (Floating-point output variables have a configured _FillValue; projection parameters are given with six significant digits.)",
 ["inputs"], "all parameter/time/level sets, scale exponents, grid types, byte orders",
 T + "felt code is compiled but never run by the tests.",
 ["src/io/felt/FeltCDMReader2.cc", "src/io/felt/Felt_File2.cc", "src/io/felt/Felt_Array2.cc", "src/io/felt/FeltFile.cpp", "src/io/felt/FeltGridDefinition.cpp"],
 [("decoding", "src/io/felt/FeltField.cpp")], ["FeltCDMReader2 via CDMFileReaderFactory"])
prop("C28", "CF grid mappings and proj strings describe the same projection",
 "Building a projection from CF attributes or a proj string, and converting either to the other, preserves the mapping between projection coordinates and longitude/latitude for every supported projection; forward and inverse conversions invert each other. A projection that cannot be expressed in CF is kept as its proj string or refused with an exception, never replaced by another one. (Parameters in degrees and metres, explicit earth figure.)",
 ["inputs", "configurations"], "all supported projections, parameters, earth shapes and points in the valid domain",
 T + "one projection is used by the tests.",
 ["src/coordSys/Projection.cc", "src/coordSys/ProjectionImpl.cc", "src/coordSys/"], [("attribute/proj conversions", "src/coordSys/*Projection.cc")],
 ["Projection::create/createByProj4/getParameters/getProj4String/convertToLonLat/convertFromLonLat"])
prop("C29", "Coordinate systems are recognised completely and consistently",
 "For CF datasets, every data variable with dimensions or auxiliary coordinates gets exactly one complete coordinate system. Its axes are the variable's dimensions plus its auxiliary coordinates (one whose type is already held by a dimension may be left out), each typed as CF marks it - by standard_name, units, positive or axis attribute alike -, explicit for dimensions, with the projection of the variable's grid mapping (or lat/lon for plain lat/lon axes) and the vertical transformation of its vertical axis when all formula terms fit. The result does not depend on the order of declarations; vector components with matching standard names and equal shape are paired; WRF datasets get axes centred on their domain.",
 ["inputs", "configurations"], "all CF ways to mark axes, orders of variables, several systems in one file",
 T + "one listing on one file.",
 ["src/coordSys/CF1_xCoordSysBuilder.cc", "src/coordSys/CoordinateSystem.cc", "src/coordSys/CoordinateAxis.cc"], [("CF builder", "src/coordSys/CF1_xCoordSysBuilder.cc")],
 ["listCoordinateSystems", "CDM::getLatitudeLongitude/getProjectionOf..."])
prop("C30", "Fill-writing puts each slice at its coordinate position and nothing else",
 "Fill-writing into an existing NetCDF file writes each source slice at the target positions whose dimension values equal the source's (converted between the packings of source and target; translated dimensions at the configured slice), appends to the unlimited dimension only for values it does not have, skips variables the target lacks or has with another shape, reports values which cannot be placed, and leaves all other target data, variables and attributes unchanged - also in sequences of fills, through one open writer or several. Direct raw, scaled or unit-converting slice writes change exactly the addressed elements and are seen by later reads. (Source and target use the same units, one unlimited dimension.)",
 ["inputs", "histories"], "all overlaps of source/target coordinate values, repeated fills, orders",
 T + "fill-writing is not executed by the running tests.",
 ["src/FillWriter.cc", "src/io/netcdf/NetCDF_CDMReader.cc"], [("slice mapping", "src/FillWriter.cc")], ["target file before/after"])
prop("C31", "Concurrent use is race-free and gives the same results as sequential use",
 "Reading from one dataset or processing stage from several threads at once, using separate datasets in separate threads (opening, transforming, reading, writing), and running the parallelised operations and writers with any number of worker threads cause no data race, no unsynchronised use of the NetCDF and UDUNITS libraries or of a PROJ context, and give the results of a sequential run (sums to rounding); parallel writes produce the same file as sequential ones, and a source that fails in a worker thread is refused as it is by one thread.",
 ["schedules"], "all thread counts, interleavings and mixes of readers/writers",
 T + "all tests are single threaded at the API and never check schedules.",
 ["include/fimex/MutexLock.h", "src/io/netcdf/NetCDF_CDMReader.cc", "src/io/netcdf/NetCDF_CDMWriter.cc", "src/CachedInterpolation.cc", "src/CDMInterpolator.cc", "src/Logger.cc", "src/Units.cc", "src/CDMVerticalInterpolator.cc"],
 [("OpenMP locks", "include/fimex/MutexLock.h"), ("netcdf global lock", "src/io/netcdf/NetCDF_Utils.cc")], ["ThreadSanitizer reports", "results of threads vs sequential"],
 technique="ThreadSanitizer build with a pthread OpenMP runtime shim and injected delays, plus result comparison with sequential runs")
prop("C32", "Malformed input files cause errors, never memory corruption or hangs",
 "Opening and reading truncated, corrupted or adversarial input (NetCDF with odd metadata and damaged bytes, GRIB, felt, NcML, XML configurations, protobuf and XML GRIB indexes, grid, axis and time specification strings), and sending hostile datasets and arguments through every processing stage, ends in success or a reported std::exception within bounded time; it never reads or writes outside its buffers, invokes undefined behaviour, trips an assertion or terminates the process, and whatever is read has the size the dataset declares. Fields of a truncated felt file that are still read equal those of the intact file or are missing.",
 ["inputs", "fault_sequences"], "all byte strings presented as input files",
 T + "no malformed file is tested.",
 ["src/io/felt/", "src/io/grib/", "src/io/netcdf/", "src/NcmlCDMReader.cc", "src/XMLDoc.cc", "src/GridDefinition.cc"], [("bounds checks and exceptions", "readers")], ["sanitizer reports", "exit status"],
 technique="mutation and hostile-argument workload under ASan+UBSan with exception, size and time monitors")
prop("C33", "The C and Python interfaces return the same results as the C++ library",
 "Every dataset view obtained through the C or Python interface (readers, extraction, projection and point interpolation, time interpolation, NcML modification, aggregation, callbacks, slice builders, writers and read-write access) reports the same names, dimensions, attributes, axes, units and data (values, types, shapes, missing values) as the C++ interface for the same operations; data made from numpy arrays of any type, stride or order hold the array's elements, do not outlive or leak them; a callback sees and replaces exactly the unpacked data of its variable; and errors are reported as error codes or exceptions, never by a crash or an escaping C++ exception.",
 ["inputs", "configurations"], "all calls and datasets",
 T + "python tests check a few values against literals; the C interface is not run.",
 ["src/c_fimex.cc", "src/C_CDMReader.cc", "modules/python/"], [("C wrappers", "src/c_fimex.cc"), ("pybind11 converters", "modules/python/")], ["C API outputs", "pyfimex0 objects"])
prop("C34", "Reading is pure: repeated, reordered or modified reads do not interfere",
 "Reading any variable any number of times, in any order and mix of read methods, always returns the same values; modifying a returned array or destroying it does not change later reads, and no read changes the dataset's visible metadata. (Text variables are read as a whole.)",
 ["histories", "inputs"], "all read histories over all readers",
 T + "each test reads each variable about once.",
 ["src/CDMReader.cc", "src/CDMExtractor.cc", "src/CDMInterpolator.cc", "src/CDMProcessor.cc", "src/io/netcdf/NetCDF_CDMReader.cc"], [("copy on read", "src/CDMReader.cc")], ["repeated getData*/getDataSlice results", "CDM before/after"],
 technique="history monitor: random read sequences with returned-buffer scribbling checked against first-read digests, ASan+UBSan build")
prop("C35", "Failed writes are reported; a reported success leaves a complete file",
 "When writing a dataset fails at any point (unwritable path, disk full or I/O error, and for NetCDF and NcML a failing data source) the writer reports an error to the caller; when it reports success the file is complete and readable with all data.",
 ["fault_sequences", "crash_points"], "all write-failure points of a write, all failing sources",
 T + "no failure is injected.",
 ["src/io/netcdf/NetCDF_CDMWriter.cc", "src/io/netcdf/NetCDF_Utils.cc", "src/io/grib/GribApiCDMWriter.cc", "src/NcmlCDMWriter.cc"], [("status checks and exceptions", "src/io/netcdf/NetCDF_Utils.h")], ["exception vs file content after injected faults"],
 technique="fault injection (failing source readers, file-size limits at enumerated points) with completeness monitor", level="fault_enumeration")

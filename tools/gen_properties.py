#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=hook)))
S = "libsrc/geomodelgrids/serial/"; U = "libsrc/geomodelgrids/utils/"; A = "libsrc/geomodelgrids/apps/"; C = "geomodelgrids/create/"

prop("C01", "Query returns the interpolated stored value at every point of the domain",
     "For every point inside a model's domain, every requested value equals the trilinear interpolation of the values stored at the surrounding grid points of the block that contains the point, evaluated in the model's own coordinates (rotated by its azimuth about its origin, in its coordinate system, with depth stretched between the top surface and the bottom of the model). This holds, to floating-point roundoff, for uniform and for variable resolution along each axis, any number of blocks with different resolutions, any number of stored values, any grid size and any coordinate system of the query points, vertical systems (units, heights above a geoid) included.",
     ["inputs", "configurations"], "every model layout (origin, azimuth, CRS, topography, blocks, uniform/variable spacing, values) and every query point in its domain, including grid points, cell faces, block contacts and domain edges",
     "Tests query 4 fixed synthetic models whose fields are linear functions at some dozens of hand-picked points; a linear field hides wrong cell choices, swapped axes of equal length and wrong weights, and no grid is larger than the cached window.",
     [S+"Query.cc", S+"Model.cc", S+"Block.cc", S+"Hyperslab.cc", U+"Indexing.cc", U+"CRSTransformer.cc"],
     [("coordinate transform to model space", S+"Model.cc:_toModelXYZ"), ("block lookup", S+"Model.cc:_findBlock"), ("trilinear interpolation", S+"Hyperslab.cc:_interpolate3D"), ("index of coordinate", U+"Indexing.cc:getIndex")],
     [("cached window", "origin/size/values of the part of a dataset held in memory", S+"Hyperslab.hh")],
     ["values returned by Query::query / geomodelgrids_squery_query"])
prop("C02", "A query's answer does not depend on what was queried before",
     "The values, status and elevations returned for a point depend only on the model files, the requested values, the settings in force and the point itself. They are the same, to floating-point roundoff, whichever points were queried before, in whatever order, however many other handles are open on the same files, and however often settings were switched back and forth.",
     ["histories"], "all sequences of point queries, elevation queries, setting changes and handle creations/destructions, in particular sequences that move across grids larger than the cached window in every direction",
     "The existing tests query each point once in one fixed order on grids that fit entirely in the cached window, so no window is ever replaced and no history is compared with another.",
     [S+"Hyperslab.cc", S+"Surface.cc", S+"Block.cc", S+"Query.cc"],
     [("window replacement rule", S+"Hyperslab.cc:getSlab"), ("per-query re-initialisation of output values", S+"Query.cc:query")],
     [("cached window", "origin/size/values of the part of a dataset held in memory", S+"Hyperslab.hh")],
     ["values/status of each call in an operation history compared with a fresh handle"])
prop("C03", "Domain membership is exact and points outside give no-data, never a crash",
     "A point is reported as inside a model exactly when its model coordinates lie within the horizontal extent and between the bottom and the top of the model, boundaries included. A query at a point inside at least one open model succeeds with status OK; at any other point (including infinite, not-a-number and untransformable coordinates) it returns the warning status with every value set to the no-data value and never raises an error, aborts or reads outside the stored data.",
     ["inputs", "configurations"], "every point (interior, boundary, within an ulp of a boundary, far away, non-finite) and every model layout, including extents that are not exactly representable multiples of the spacing",
     "Tests use a few interior and a few far-outside points; boundary points, roundoff at the upper edge, block contacts with roundoff, and non-finite coordinates are never tried.",
     [S+"Model.cc", S+"Query.cc", S+"Surface.cc", U+"Indexing.cc"],
     [("containment test", S+"Model.cc:contains"), ("surface range test", S+"Surface.cc:query"), ("no-data fill", S+"Query.cc:query")],
     (), ["Model::contains, Query::query status and values"])
prop("C04", "No-data at a contributing grid point yields no-data, and nothing else does",
     "If any grid point that contributes with non-zero weight to the interpolation of a value holds the no-data marker, that value is returned as exactly the no-data value; if none does, the interpolated value is returned and no contribution of the marker leaks into it. The decision is made separately for every value of the point, and does not change the status of the query.",
     ["inputs"], "all placements of no-data markers in the grid (per value), all query points including grid points, edges and faces next to missing data",
     "Only one small hand-made placement is tested at a handful of points; mixed per-value markers, and points exactly on a face shared with missing data, are not.",
     [S+"Hyperslab.cc", U+"constants.hh"],
     [("no-data detection while interpolating", S+"Hyperslab.cc:_interpolate3D")], (), ["values returned by Query::query"])
prop("C05", "Models are consulted in the order given and values returned in the order asked",
     "When several models are open, a point is answered entirely from the first model, in the order given at initialisation, whose domain contains it. Requested value names are matched without regard to case and returned in exactly the order requested, each taken from its own column of that model, whatever the order of columns in each model; a name missing from any model, or a name whose units differ between models, is refused at initialisation.",
     ["inputs", "configurations"], "all sets and orders of overlapping models with differing value columns, all permutations, subsets and letter cases of the requested names",
     "Tests open at most two models with identical column orders and fixed value lists.",
     [S+"Query.cc"], [("value index map", S+"Query.cc:initialize"), ("model loop", S+"Query.cc:query")],
     [("values map", "requested value -> column of each model", S+"Query.hh")], ["Query::query values, exceptions of initialize"])
prop("C06", "Squashing moves points by the documented map and changes nothing else",
     "With squashing on and minimum elevation m, a query at elevation z above m returns exactly what the unsquashed query returns at elevation s + z*(m-s)/m, where s is the elevation of the chosen surface (top of model or topography/bathymetry) at the point in each model considered; at or below m it returns the same as with squashing off. Turning squashing off restores the original answers, and selecting only a minimum elevation selects the top surface.",
     ["inputs", "histories", "configurations"], "all points, surfaces, minimum elevations and sequences of setting changes, with several models having different surfaces",
     "Tests compare squashed queries with precomputed values at a few points with one minimum elevation; switching settings and multi-model combinations are not covered.",
     [S+"Query.cc"], [("squash map", S+"Query.cc:query")], [("squash mode and minimum elevation", "settings of the handle", S+"Query.hh")],
     ["Query::query values with and without squashing"])
prop("C07", "Surface elevations are the interpolated surface of the first containing model",
     "The elevation of the top of the model and of topography/bathymetry at a point is the bilinear interpolation of the stored surface at that point, from the first model in order that contains the point, converted at that point to the vertical system of the caller (units, heights above a geoid). It is zero for a model without surfaces, topography/bathymetry falls back to the top surface when it is not stored, and a point outside all models yields the no-data value.",
     ["inputs", "configurations"], "all surfaces (uniform or variable spacing, small or larger than the cached window), points, model orders and coordinate systems",
     "Tests evaluate a few points on linear surfaces which fit the cached window.",
     [S+"Query.cc", S+"Model.cc", S+"Surface.cc", S+"Hyperslab.cc"],
     [("surface lookup", S+"Surface.cc:query"), ("vertical inverse transform", S+"Model.cc:queryTopElevation"), ("bilinear interpolation", S+"Hyperslab.cc:_interpolate2D")], (),
     ["Query::queryTopElevation, Query::queryTopoBathyElevation"])
prop("C08", "C and Python interfaces match C++ and never let a failure escape",
     "For every sequence of calls, the C interface returns the same values, elevations and statuses as the C++ interface, and the Python interface the same arrays, for any array shape accepted. A failing call through the C interface reports the error status with a message and leaves the process alive, including null handles and calls before initialisation or after a failed initialisation or finalisation; a failing call through Python raises an exception.",
     ["inputs", "histories"], "all call sequences (valid and invalid) over the handle life cycle and all inputs",
     "Tests exercise each function once in the expected order plus a few null-handle calls; no call sequences with failures in the middle are compared.",
     [S+"cquery.cc", U+"cerrorhandler.cc", "modulesrc/Query_wrap.cc", "modulesrc/Model_wrap.cc"],
     [("exception to status translation", S+"cquery.cc"), ("array marshalling", "modulesrc/Query_wrap.cc")], (),
     ["return values of the C functions, arrays returned to Python"])
prop("C09", "Status, message and log record exactly the failures that happened",
     "The status of a handle is that of the most recent error or warning since it was last reset, with the message of that event; resetting clears both, and successful calls do not disturb them. When logging is on, each error or out-of-domain warning of a query of an initialised handle is written once to the chosen log file in order; when it is off nothing is written, and switching logging off and on again never loses earlier entries.",
     ["histories"], "all sequences of queries (in and out of domain), failures, resets and logging changes on one or more handles",
     "Tests set one warning and one error in a fixed order.",
     [U+"ErrorHandler.cc", U+"cerrorhandler.cc", S+"cquery.cc", S+"Query.cc"],
     [("status/message update", U+"ErrorHandler.cc")], [("status and message", "last event", U+"ErrorHandler.hh")],
     ["getStatus/getMessage and the log file"])
prop("C10", "The point-query programs write one correct row per input point, in order",
     "The query programs write, after the header naming the columns, exactly one row per point of the input file in input order, with the point's coordinates and the values (or elevations) that the library returns for it, no-data where it is outside, to seven significant digits and independent of blank or trailing line ends. Squash options act as in the library, and output goes to the named file with nothing lost or truncated. A points file with a row that is incomplete or not numbers is refused with an error and a failing exit status.",
     ["inputs", "configurations"], "all point files (any number of points, with or without final newline, blanks, points outside) and all combinations of options",
     "Tests run the programs on one 4-point file per program.",
     [A+"Query.cc", A+"QueryElev.cc"], [("read-query-write loop", A+"Query.cc:run"), ("read-query-write loop", A+"QueryElev.cc:run")], (),
     ["output file of geomodelgrids_query / geomodelgrids_queryelev"])
prop("C11", "A virtual borehole samples the column from the surface to the maximum depth",
     "The borehole program writes one row for every multiple of the depth increment from zero to the maximum depth, inclusive, each giving elevation, depth and the values the library returns at that elevation below the surface at the location. A location outside the models is refused with an error and a failing exit status.",
     ["inputs", "configurations"], "all locations, increments, depths, value lists and models",
     "Tests check one location and increment against stored numbers.",
     [A+"Borehole.cc"], [("depth loop", A+"Borehole.cc:run")], (), ["output file of geomodelgrids_borehole"])
prop("C12", "Isosurface maps hold the depth at which the field crosses the requested value",
     "For every pixel of the raster and every requested isosurface, the stored depth is one at which the sampled column rises to the requested value (the shallowest crossing, or the deepest when preferred), to within the vertical resolution; a column whose values all exceed the target at the top reads zero, and a column that never reaches it, or lies outside the models, reads no-data. The raster covers the requested box at the requested spacing, correctly georeferenced.",
     ["inputs", "configurations"], "all fields, boxes, spacings, depths, value targets and search options",
     "One flat linear model is tested; fields that are constant, non-monotonic, partly missing, or boxes larger than the model are not.",
     [A+"Isosurface.cc", U+"GeoTiff.cc"], [("search", A+"Isosurface.cc"), ("raster writing", U+"GeoTiff.cc")], (), ["GeoTIFF written by geomodelgrids_isosurface"])
prop("C13", "A damaged or inconsistent model file is refused, never misread",
     "Opening a file that is not HDF5, truncated, missing any required piece of metadata, or whose datasets, attributes and groups have the wrong type, rank, size or mutual consistency reports an error naming a problem. It never crashes the process, reads or writes outside its buffers, hangs, or silently yields values for a model whose required metadata is absent.",
     ["inputs", "fault_sequences"], "all corruptions of a valid model file: structural mutations of every attribute, dataset and group, and byte-level damage or truncation",
     "Tests use one file with missing attributes and three with wrong sizes.",
     [S+"HDF5.cc", S+"Model.cc", S+"ModelInfo.cc", S+"Block.cc", S+"Surface.cc"],
     [("metadata checks", S+"Model.cc:loadMetadata"), ("typed reads", S+"HDF5.cc:readAttribute")], (), ["outcome of open/loadMetadata/query under sanitizers"])
prop("C14", "Model information shows what is stored and verification is exact",
     "The information program shows exactly the description, coordinate system, value names with units, and the name, resolution, extent and size of each block stored in the file. Its verification reports success for every consistent model and failure for every model whose surfaces or blocks do not span the domain, do not match in resolution, leave vertical gaps or overlaps, or whose metadata is incomplete.",
     ["inputs", "configurations"], "all consistent models and all single inconsistencies injected into them",
     "Tests verify two good files and four bad files.",
     [A+"Info.cc"], [("consistency checks", A+"Info.cc")], (), ["text printed by geomodelgrids_info"])
prop("C15", "Handles leak nothing, survive any life cycle, and never modify model files",
     "Over any sequence of creating, initialising (also unsuccessfully), re-initialising, querying, finalising and destroying handles, there is no invalid memory access, no undefined behaviour and no memory, file or library identifier left behind after everything is destroyed. A handle whose initialisation fails holds no model, not those of before, and answers nothing. Model files that are only queried stay byte-for-byte unchanged and can be opened by several handles at once.",
     ["histories", "fault_sequences"], "all life-cycle histories including failing steps in between",
     "Tests never look at leaks, never re-initialise a handle and never check the file.",
     [S+"HDF5.cc", S+"Query.cc", S+"Model.cc", S+"Hyperslab.cc", S+"cquery.cc"],
     [("ownership of buffers", S+"Hyperslab.cc"), ("closing of identifiers", S+"HDF5.cc")], (), ["sanitizer reports, open-object counts, allocation counts, file digests"])
prop("C16", "Coordinate transformation is faithful and invertible",
     "Transforming coordinates between two coordinate systems gives the position of the same physical point in the axis order and units each system defines, for two- and three-dimensional systems, and transforming back returns the original coordinates to within the accuracy of the projection. Unsupported or malformed coordinate system names are refused with an error, and the unit and axis queries report those of the requested axis.",
     ["inputs", "configurations"], "all pairs of coordinate systems and all points of their areas of use",
     "Tests transform a handful of points between three pairs.",
     [U+"CRSTransformer.cc"], [("transformer set-up", U+"CRSTransformer.cc:initialize"), ("axis order normalisation", U+"CRSTransformer.cc:createGeoToXYAxisOrder")], (), ["CRSTransformer results vs an independent PROJ client"])
prop("C17", "Coordinate-to-index lookup is the exact piecewise-linear inverse of the grid",
     "For uniform and variable spacing, ascending or descending, the fractional index of a coordinate inside the grid lies between the indices of the two grid coordinates that bracket it, is proportional to the distance between them, is exact at grid coordinates, and increases monotonically. Coordinates outside the grid are never mapped to an index inside it and never abort the process.",
     ["inputs"], "all coordinate arrays (any order on input, any length from one) and all coordinates, including grid coordinates, their neighbours in floating point, and values outside",
     "Tests check a few points on two arrays.",
     [U+"Indexing.cc"], [("binary search", U+"Indexing.cc:getIndex")], (), ["return value of getIndex"])
prop("C18", "GeoTIFF rasters are written and read back without loss",
     "Bands, band labels, size, no-data value, coordinate system and geographic extent written to a raster file are what any reader finds in it, every pixel at the position given to it; extent computed from an open raster equals the extent it covers. Invalid parameters are refused with an error, and any number of rasters can be written or read one after another in one process.",
     ["inputs", "histories"], "all raster sizes, band counts, extents, values and sequences of writer/reader life cycles",
     "Tests write and read one raster.",
     [U+"GeoTiff.cc"], [("geotransform", U+"GeoTiff.cc:create"), ("band writing", U+"GeoTiff.cc:write")], (), ["file contents read by an independent reader"])
prop("C19", "Batches tile the grid exactly once within the size limit",
     "The batches into which a grid is split when creating a model cover every grid point exactly once, each batch is a non-empty box, and no batch holds more points than the limit whenever the limit allows at least one point. Iteration always terminates.",
     ["inputs"], "all grid sizes in two and three dimensions and all batch limits",
     "Tests check a few sizes.",
     [C+"utils/batch.py"], [("batch iteration", C+"utils/batch.py")], (), ["sequence of batches"])
prop("C20", "Creating a model stores every value at its own grid point for any batch size",
     "Creating a model evaluates the data source at the physical location of every grid point of every surface and block, and stores the result at that grid point in the declared column and layout, so that querying the created model at a grid point returns the source's value there. The file contents do not depend on the batch size, the number of configuration files, or whether steps are run separately or together.",
     ["inputs", "configurations"], "all domains, block layouts, uniform and variable resolutions, surfaces, batch sizes and orders of steps",
     "Tests create a few small models with one batch size each and compare with formulas that share the code's own conventions.",
     [C+"core/model.py", C+"io/hdf5.py", C+"apps/create_model.py", C+"utils/batch.py"],
     [("point generation", C+"core/model.py:generate_points"), ("hyperslab writes", C+"io/hdf5.py")], (), ["contents of the created HDF5 file; queries against it"])
prop("C21", "Model metadata survives creation and updating unchanged",
     "Every metadata item of the configuration (descriptions, lists, coordinate system, origin, azimuth, dimensions, resolutions or coordinates, value names, units and auxiliary information) is stored so that the library and a plain HDF5 reader return exactly it, including unusual text and empty lists. Updating the metadata of an existing model replaces exactly the metadata and leaves every stored surface and block value untouched.",
     ["inputs", "configurations"], "all metadata values, block configurations and sequences of update steps",
     "One configuration is round-tripped in the tests.",
     [C+"io/hdf5.py", C+"core/model.py", C+"apps/create_model.py", S+"ModelInfo.cc"],
     [("metadata writing", C+"io/hdf5.py"), ("metadata reading", S+"ModelInfo.cc")], (), ["attributes of the file, ModelInfo getters"])
prop("C22", "A failing read is reported, never turned into wrong values",
     "If reading a model file fails at any point (the system refuses or shortens a read, or part of the data cannot be decoded), the call in progress reports an error; it never returns success with values that differ from the stored ones. Once reads work again, later queries on the same or a fresh handle return correct values, and nothing is leaked or corrupted by the failure.",
     ["fault_sequences", "histories"], "all positions of one or more failing reads in a history of initialisation and queries",
     "No test injects an I/O failure.",
     [S+"HDF5.cc", S+"Hyperslab.cc", S+"Query.cc", S+"cquery.cc"],
     [("error checks on every HDF5 call", S+"HDF5.cc"), ("window bookkeeping", S+"Hyperslab.cc:getSlab")], (), ["status/values under injected read failures"])
prop("C23", "Programs refuse bad command lines and accept good ones",
     "Each program exits with a failing status and a message on a missing required option, an unknown option, a malformed or out-of-range number, an unreadable input or an unwritable output, without crashing or leaving output that looks valid. It prints usage and succeeds when asked for help, and accepts every documented option in either form and any order with the same effect.",
     ["inputs", "configurations"], "all argument vectors built from documented options in all orders, with omissions and malformed values",
     "Tests cover a few argument vectors through the parser objects, not the processes.",
     [A+"Query.cc", A+"QueryElev.cc", A+"Borehole.cc", A+"Isosurface.cc", A+"Info.cc"],
     [("option parsing", A+"*.cc:_parseArgs")], (), ["exit status, standard error and output files of the programs"])
prop("C24", "Models hold the data source's values at the source's own grid points",
     "A model created from a table (CSV source), a gridded file (IRIS EMC source) or an EarthVision model with rules holds at every grid point the entry of the source for that location: the row of the table whose coordinates, converted to the model's coordinate system, are those of the grid point; the entry of the gridded file with the longitude, latitude and depth of the grid point; the values the rules give for the fault block, zone and depth of the grid point, and the identifiers of both. Columns, order of rows, units of length, batches, and how many blocks share a source make no difference, missing entries become no-data, and a point without an entry never gets the value of another point. A program of the source that fails, or a unit of length that is not known, makes the creation fail. The created model is queryable over its whole depth and carries the description found in the source. (Longitudes and latitudes of gridded files are evenly spaced and increasing; model coordinate systems of tables have easting before northing; rules give at least two values; names have at most 32 characters.)",
     ["inputs", "configurations"], "all tables (columns, rows, spacing, extents, coordinate systems), gridded files (spacing, units, missing values, number types), geologic models (units, labels, surfaces, rules) and batch divisions",
     "The data sources have no tests at all; none of the file formats is read by a test.",
     [C+"data_srcs/csv/datasrc.py", C+"data_srcs/iris_emc/datasrc.py", C+"data_srcs/earthvision/datasrc.py", C+"data_srcs/earthvision/api.py"],
     [("table indexing", C+"data_srcs/csv/datasrc.py"), ("labels and rules", C+"data_srcs/earthvision/datasrc.py"), ("grid description", C+"data_srcs/iris_emc/datasrc.py")],
     (),
     ["stored values, surfaces and attributes of the created file", "query results of the created file"])
prop("C25", "Independent handles can be used from several threads at once",
     "Queries through different handles in different threads return the same results as when run one after another, without data races.",
     ["schedules"], "all interleavings of calls on distinct handles in distinct threads",
     "No test starts a thread.",
     [S+"Query.cc", S+"HDF5.cc", U+"CRSTransformer.cc"], [("none: the library is documented as serial", "libsrc/geomodelgrids/geomodelgrids_serial.hh")], (),
     ["values returned in each thread"])
prop("C26", "Data windows give the dataset's values whatever their size and the access order",
     "A window on a dataset (2-D or 3-D) answers interpolation and nearest-point requests with values of the whole dataset: the interpolation of the surrounding grid points, or the values stored at the nearest grid point, no-data included, independently of the size of the window, of which part of the dataset it held before, of the storage (type, chunks, compression), and of the order of the requests. A window whose rank differs from that of the dataset is refused.",
     ["inputs", "configurations", "histories"], "all dataset shapes, window sizes of at least two points per axis, and sequences of places inside the dataset",
     "Tests use one window size per dataset and a handful of places, and never ask for the nearest point.",
     [S+"Hyperslab.cc", S+"HDF5.cc"],
     [("window placement", S+"Hyperslab.cc:getSlab"), ("interpolation", S+"Hyperslab.cc:_interpolate3D"), ("nearest point", S+"Hyperslab.cc:_nearest3D")],
     [("window", "origin and values held", S+"Hyperslab.hh")], ["Hyperslab::interpolate, Hyperslab::nearest"])
prop("C27", "The San Francisco Bay rules give the published properties at every depth",
     "For every zone and fault block listed in the shipped configurations of the San Francisco Bay models (versions 08.3.0 and 21.1) and every location and depth, the rules give density, Vp, Vs, Qp and Qs, in this order and in SI units, of the published relation of the rock unit assigned to that zone and block, with the corrections their description lists: Vp piecewise in depth, Vs, density and Qs by the generic relations unless the unit has its own, Qp twice Qs. A fault block divided by a line uses the rule of the side the location is on; water has neither Vs nor Qs, outside the model nothing; a zone that is not listed is refused. A model created with the shipped configurations holds these values at the depth of each grid point, and their metadata.",
     ["inputs", "configurations"], "all zones, fault blocks, locations and depths, and the three shipped pairs of configurations",
     "No test evaluates any rule or uses a shipped configuration.",
     ["models/usgs_sfbay/rules_aagaard_etal_2010.py", "models/usgs_sfbay/rules_hirakawa_aagaard_2021.py", "models/usgs_sfbay/USGS_SFCVM_detailed_v21-1.py", C+"data_srcs/earthvision/datasrc.py"],
     [("relations of the rock units", "models/usgs_sfbay/rules_aagaard_etal_2010.py"), ("rules of divided fault blocks", "models/usgs_sfbay/rules_hirakawa_aagaard_2021.py:is_along_azimuth"), ("zones and fault blocks", "models/usgs_sfbay/USGS_SFCVM_detailed_v21-1.py:get_rules")],
     (), ["values returned by the rules; contents of the created HDF5 file"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))

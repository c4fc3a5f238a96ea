#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl (run from anywhere; rewrites it)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

D = "hrosailing/core/data.py"
p("C01", "The data table stays rectangular and keeps every row's values together",
  "After any sequence of append, extend, update, fill, delete, rename, mask, slice, copy-concatenate and strip operations on a data container, the value found at (column, row) is the one the documented effect of the operations puts there: entries are added only at the end of columns, values of one row are never mixed with those of another, n_rows is the length of the longest column, and after update, fill or concatenate every column has exactly n_rows entries, missing ones being None. An append, extend, update or rename that is rejected with an error leaves the container unchanged. Every way of reading the container (items, keys, columns, row lists, row dictionaries and row tuples, slices) shows the same table.",
  ["histories", "inputs"], "all histories of container operations over small key sets, values, None holes, masks and index lists",
  "The tests call each method once on one fixed container; interleavings (new key after rows exist, deletion with repeated indices, strip after append, a rejected call followed by use) are not exercised.",
  [D], [("n_rows bookkeeping and None padding", D+": Data.extend/append/update/delete/mask/strip/fill"), ("row and column views", D+": Data.rows/row/__getitem__/items")],
  [("_data,_n_rows", "column lists and the row counter", D)], ["Data public methods", "len()", "rows()", "get_slice()"])
p("C02", "Standard data format canonicalises names, times and units without losing rows",
  "Bringing a data container into the standard hrosailing format renames every recognised column name to its standard name case-insensitively, leaves unrecognised columns as they are, combines separate date and time columns row by row into one datetime column where there is none yet, and converts numeric columns to float. Columns whose canonical names coincide are all kept, the later ones under marked names. Row count, row order and all values other than those conversions are unchanged, None stays None, and the operation is idempotent.",
  ["inputs", "configurations"], "all mixes of known/unknown names in any case, of present/absent date, time, datetime columns and of value types with None holes",
  "Tests convert one or two fixed tables; combinations of column presence, spelling, type and missing values are never varied.",
  [D, "hrosailing/core/constants.py"], [("key map and type conversion", D+": Data.hrosailing_standard_format"), ("name table", "hrosailing/core/constants.py")],
  None, ["Data.hrosailing_standard_format()"])
I="hrosailing/processing/imputator.py"
p("C03", "Imputation fills gaps from the same column, locally in time, and invents nothing",
  "After imputation no kept column contains None, every originally present value of a kept row is unchanged and still in the row of its own datetime, and rows keep their chronological order. The local fill imputator interpolates missing datetimes between known ones within the time limit and drops other rows without datetime, fills a gap only from the enclosing known values of the same column (through the configured functions: between both neighbours when they are at most the time limit apart, otherwise and at the ends of the table from the preceding, else the following, known value that is less than the limit away) and removes rows it may not fill; the remove-only imputator keeps exactly the complete rows. The reported numbers of removed columns, removed rows and filled values match what was done.",
  ["inputs", "configurations"], "all tables of up to a handful of rows with any pattern of None, any gap widths against any time limit, any fill functions",
  "Tests use one table; the outcome depends on where gaps lie relative to table ends, time limits and neighbours, a case space no fixed table covers.",
  [I], [("gap walk and fill functions", I+": FillLocalImputator.impute"), ("complete-row filter", I+": RemoveOnlyImputator.impute")],
  None, ["Imputator.impute(data) result and statistics"])
S="hrosailing/processing/smoother.py"
p("C04", "Smoothing replaces plateaus by straight lines between plateau midpoints only",
  "Smoothing changes only float columns, never the number, order or datetime of rows, and the smoothed values lie on the piecewise linear curve (in time) that takes a plateau's value in its middle and the mean of the two values at the border of two adjacent plateaus of equal measurements, so smoothed values stay between the values of the enclosing plateaus. A plateau longer than twice the configured time span keeps its value except within the time span from its borders. Time series that are not in chronological order are refused.",
  ["inputs", "configurations"], "all piecewise constant time series with any plateau layout and any timespan limit",
  "Tests have one series; plateau layout at the ends, single rows, and plateaus around the limit need enumeration.",
  [S], [("plateau detection and affine interpolation", S+": AffineSmoother.smooth")], None, ["Smoother.smooth(data)"])
F="hrosailing/processing/filter.py"
p("C05", "Filters decide per point by weight alone, monotonically",
  "A filter returns one boolean per weight, in the order of the weights; with the bound filter a point is kept exactly if its weight lies within the inclusive bounds, with the quantile filter exactly if its weight is at least the requested percentile of the given weights. Consequently equal weights get equal decisions, a kept weight is never smaller than a rejected one for the quantile filter, permuting the weights permutes the decisions, and configurations with inverted bounds or a percentage outside [0, 100] are refused.",
  ["inputs", "configurations"], "all finite weight vectors with ties, all bounds and percentages",
  "Tests use a couple of vectors; the decision is a universally quantified relation between weights, bounds and the result.",
  [F], [("BoundFilter.filter/QuantileFilter.filter", F)], None, ["Filter.filter(wts)"])
W="hrosailing/processing/weigher.py"
p("C06", "A weigher's weights depend only on the points given, one per point, in range",
  "Weighing n points yields n weights in the order of the points, and each weight is the documented function of the given points alone: the constant, the fuzzy truth value, the standardised member count or distance in the neighbourhood, or the fluctuation in the surrounding time window; the standard scale brings the weights into [0, 1]. Weighing the same points again, or after other points, with the same weigher gives the same weights, and the points are not modified. Weighers combined with each other or with numbers or arrays by +, -, *, / and **, and their negatives, behave as the operation applied to the weights point by point.",
  ["inputs", "histories", "configurations"], "all point sets and tables, all sequences of weigh calls on one weigher, all weigher expressions",
  "Tests weigh one fixed set once per weigher and only check that expressions of wrong types raise.",
  [W], [("cylindric member/mean, fluctuation, fuzzy weighers", W), ("operator overloads", W+": Weigher.__add__ etc.")],
  [("dimensions/norm defaults", "chosen from the data when not configured", W)], ["Weigher.weigh(points)"])
p("C07", "Fuzzy variables and fuzzy boolean operators follow truth-value algebra",
  "A fuzzy variable's membership functions map each value of the named attribute to a truth value in [0, 1], increasing for > and >=, decreasing for < and <=, being at least 1/2 exactly on the satisfied side of the threshold, with sharpness set by a call applying to the next comparison only; equality is the conjunction of both sides. Conjunction, disjunction and negation of fuzzy functions evaluate to min, max and 1-x of the operands at every point, so De Morgan, commutativity, double negation and the range [0, 1] hold for every nested expression. A statement prints as an expression which denotes it.",
  ["inputs", "programs", "histories"], "all nested expressions over all comparisons, thresholds, sharpness histories and points",
  "Tests evaluate a few expressions on one record; sharpness is hidden state whose lifetime only sequences of comparisons reveal.",
  [W], [("FuzzyVariable sharpness state", W+": FuzzyVariable"), ("FuzzyBool operators", W+": FuzzyBool")], [("_sharpness/_next_sharpness", "one-shot sharpness", W)], ["FuzzyBool.__call__"])
L="hrosailing/pipeline/pipeline.py"
p("C08", "The pipeline runs each enabled component once, in order, on the right data",
  "Running the pipeline passes all training data through handling, imputation, smoothing, weighing and filtering, expansion, weighing and filtering again, and then jointly through influence fitting and removal, weighing and filtering, injection and extension, every enabled stage exactly once per (not empty) data set and every disabled stage not at all, each stage receiving exactly what the previous one produced; weights stay attached to their rows at every filter. The influence model is fitted on the training data only, test data goes through the same stages except those tailored to training and never contributes to the polar diagram, and the reported statistics of each stage are those of that stage.",
  ["configurations", "inputs", "histories"], "all combinations of enabled/disabled stages, component kinds, numbers of training and test data sets, and repeated calls",
  "Tests run a few configurations end-to-end and look at the result's type; with 2^10 switch settings and hidden data flow, wrong routing is not observable there.",
  [L], [("stage sequencing", L+": PolarPipeline.__call__/_preprocess"), ("row-weight mask", L+": _WeightedPoints/_weigh_and_filter")],
  [("weighted points", "rows with their weights between stages", L)], ["calls received by components", "PolarPipeline.__call__ result"])
E="hrosailing/pipeline/extensions.py"
p("C09", "Pipeline extensions evaluate the fitted component exactly on the requested grid",
  "The table extension returns a table over exactly the requested wind speeds and angles whose entry at each (ws, wa) is the interpolator applied there to the weighted points in the neighbourhood of that grid point, and zero (not another cell's value) where it is empty; the point cloud extension returns one such interpolated point per sample, and the curve extension the curve of the fitted regressor in the requested angle unit. Requested angles are taken modulo 360. Zero injection yields the requested number of zero-speed points of weight one at 0 and at 360 degrees, spread evenly between the smallest and largest wind speed. No extension or injector changes the points passed in, and processing further points leaves diagrams made earlier as they were.",
  ["inputs", "configurations"], "all weighted point sets, grids, neighbourhoods, interpolators and injectors",
  "Tests check output types/shapes; the cell-by-cell association grid point -> neighbourhood -> interpolator is never checked.",
  [E, "hrosailing/processing/injector.py"], [("TableExtension/PointcloudExtension/CurveExtension", E), ("ZeroInjector", "hrosailing/processing/injector.py")],
  None, ["PipelineExtension.process", "Injector.inject"])
T="hrosailing/polardiagram/_polardiagramtable.py"
p("C10", "A polar diagram table is a faithful grid under every editing history",
  "A polar diagram table always has strictly increasing wind speeds, strictly increasing distinct wind angles in [0, 360) and one boat speed per (angle, speed) pair, namely the one last written to that pair: construction associates the given speeds with the given resolutions in whatever order they are supplied (for distinct resolutions), reading at a grid pair returns exactly the stored value with angles taken modulo 360, and changing entries alters exactly the addressed pairs, selected speeds and angles being matched with the new speeds in the order of the table. A call that is rejected with an error (unknown resolution, wrong shape, empty selection) leaves the table unchanged, and evaluating the table at a grid pair through an exact interpolator agrees with the stored entry.",
  ["histories", "inputs"], "all construction orders, all histories of reads and change_entries with scalar/list/slice-like selectors, valid and invalid",
  "Tests use one fixed table and one call per test; ordering, wrap-around and rejection followed by reuse are unexplored.",
  [T], [("sorting and sanity checks", T+": PolarDiagramTable.__init__"), ("selector resolution", T+": change_entries/__getitem__")],
  [("ws/wa resolution, boat_speeds", "the grid", T)], ["PolarDiagramTable public API"])
C="hrosailing/polardiagram/_polardiagrampointcloud.py"
p("C11", "A polar diagram point cloud keeps exactly the points put in",
  "A point cloud contains exactly the points it was constructed with or that were added, in order, with angles reduced modulo 360 and, for apparent wind input, wind converted to true wind; its wind speeds and angles are the sorted distinct values occurring. Points with negative wind speed are ignored at construction, and adding points with non-positive wind speed is refused without effect. A slice at a wind speed consists of exactly the points within the given range of it (or, with an interpolator, of evaluations at evenly spaced angles), and evaluating the cloud is the interpolation over the neighbourhood of the query (exact at a point of the cloud for interpolators with exact hits).",
  ["histories", "inputs"], "all histories of construction, adding points and querying over arbitrary points, including duplicates and wrap-around angles",
  "Tests hold one cloud of a few points, mostly checking shapes; histories and neighbourhood-dependent evaluation are not checked.",
  [C], [("add_points/normalisation", C), ("slice selection", C+": get_slices/ws_to_slices")], [("points", "(n,3) array", C)], ["PolarDiagramPointcloud public API"])
U="hrosailing/polardiagram/_polardiagramcurve.py"
p("C12", "A polar diagram curve evaluates its function and is 360-degree periodic",
  "Evaluating a curve at a wind speed and a wind angle (in radians for radians curves, else in degrees) returns the function with its parameters at that speed and angle, for scalars and arrays alike and element by element; angles that differ by full circles give the same result, negative wind speeds are refused, and the arguments are not modified. Slices and points, whose angles are always in degrees, and symmetrised versions of the curve agree with evaluating it.",
  ["inputs", "configurations"], "all functions of a recording family, parameters, radians flags, scalar/array shapes and angles",
  "Tests evaluate a fixed function with a handful of values.",
  [U], [("unit conversion and call", U+": PolarDiagramCurve.__call__"), ("symmetrize", U)], None, ["PolarDiagramCurve.__call__", "get_slices"])
M="hrosailing/polardiagram/_polardiagrammultisails.py"
p("C13", "A multi-sail diagram is the maximum over its named sails",
  "A multi-sail polar diagram's speed at any wind is the maximum over its sails of their speeds there, and its slices and points are the sails' slices and points each labelled with the name of its own sail. Sail names stay attached to their diagrams, in order, through symmetrising, lookups and whatever callers do to the lists they passed in or got; missing names are filled with the default name of their position, surplus names are ignored, a lookup gives the first diagram of that name and refuses unknown names.",
  ["histories", "inputs"], "all lists of diagrams of mixed kinds with full, partial or surplus names and all sequences of additions and lookups",
  "Tests have one fixed pair of sails; naming and association over histories is unexplored.",
  [M], [("names and lookups", M)], [("sails, diagrams", "parallel lists", M)], ["PolarDiagramMultiSails public API"])
R="hrosailing/polardiagram/_reading.py"
p("C14", "Saving a polar diagram to csv and loading it back yields the same diagram",
  "For every polar diagram kind that supports csv, loading what was saved gives a diagram of the same kind with equal wind speeds, wind angles, boat speeds, points, sails, and in the case of curves equal function, parameters and radians flag; in every supported table format the file's grid is read into the same table with header/zero rows and separators handled as the format demands. Writes affect only the files belonging to the given path, so later loads of any previously written path return what was last written to it; a file that does not name a polar diagram and an unknown format are refused with an error, never read as a wrong diagram.",
  ["histories", "inputs", "configurations"], "all diagrams of each kind, all formats, all histories of writes and reads over several paths",
  "Tests round-trip one example per kind into one path; multi-file layout and interleaved writes are not exercised.",
  [R, T, C, U, M], [("to_csv/from_csv of each class", "hrosailing/polardiagram/*.py"), ("format readers", R)], [("csv files", "the store", "file system")], ["to_csv", "from_csv"])
p("C15", "Library objects and caller-owned data never alias each other",
  "No public operation of polar diagrams, data containers, pipeline components or weather and influence models modifies arrays, lists or containers the caller passes in, and later changes the caller makes to those do not change the library object or anything returned before. Arrays, lists and dictionaries returned by accessors and evaluations (including the statistics of components) can be modified without changing the object they came from or other returned values; objects derived from another (symmetrised, sliced, masked, filtered, imputed) do not share mutable state with it, and evaluating an object does not change it. By design, a column obtained as data[key] is the column itself, WeightedPoints hold the data they are made with, multi-sail diagrams hold the diagrams they are made with, and the lazy components hand on the data they get.",
  ["histories", "inputs"], "all histories of up to four steps (read, derive, update, evaluate, change by the caller) after making an object from caller-owned values, over all public classes and operations",
  "Tests compare return values and never look at their inputs afterwards.",
  [T, C, U, M, D, S, I, "hrosailing/core/computing.py", "hrosailing/core/statistics.py", "hrosailing/models/weather_model.py"], [("defensive copies", "constructors and accessors of all public classes")], [("heap", "caller objects and object fields", "everywhere")], ["public constructors, accessors, operations"])
p("C16", "Symmetrising preserves the diagram and makes it mirror symmetric",
  "Symmetrising a polar diagram yields a new, independent one that is mirror symmetric about the 0-180 degree axis and keeps everything of the original: a table has exactly its rows and their mirror images (rows at 0 and 180 degrees once; angles on both sides may lead to several rows of one angle, as documented), clouds contain exactly the points and their mirror images, curves are the mean of the function at both angles, and multi-sail diagrams consist of the symmetrised sails under the same names. The original is unchanged, and later changes to either diagram do not affect the other.",
  ["inputs"], "all tables (any angle set, including one-sided, 0 and 180), clouds, curves in both units, and multi-sail diagrams",
  "Tests symmetrise one fixed diagram each.",
  [T, C, U, M], [("symmetrize of each class", "hrosailing/polardiagram/*.py")], None, ["symmetrize()"])
G="hrosailing/models/weather_model.py"
p("C17", "Gridded weather interpolates within the enclosing cell and refuses the outside",
  "A gridded weather model returns at a grid point exactly the stored attribute values of that point and, inside a grid cell, the multilinear interpolation of the cell's corner values in time, latitude and longitude, hence always between the corner minimum and maximum, independently for each attribute. A query outside the covered time, latitude or longitude range is refused with an outside-grid error, and a model with times in full seconds saved to a file and reloaded answers every query identically.",
  ["inputs", "histories"], "all small grids with arbitrary data and spacing, all query positions including corners, edges, cell interiors and outside, one- and many-element axes",
  "Tests use one tiny grid with a few queries; index arithmetic errors at particular faces of the grid stay invisible.",
  [G], [("recursive affine interpolation", G+": GriddedWeatherModel.get_weather"), ("grid lookup", G)], None, ["get_weather", "to_file/from_file"])
p("C18", "Combined weather merges available answers; weather expansion stays row-aligned",
  "A multi-weather model answers a query with the merged attributes of all its models that can answer there (for an attribute given by several, the last model's value), skipping models that refuse with one of the documented errors unless it is exception sensitive. Expanding data with weather adds to each row exactly the weather of that row's own time and position, under a marked name where the data already has a column of that name, and keeps all original values and the row order. Rows for which the model refuses are removed as a whole in mode delete and get None in mode ignore, and values never move between rows.",
  ["inputs", "configurations"], "all lists of models with any pattern of answers and refusals per query, all tables with any pattern of rows without weather",
  "No test covers weather models or expanders at all.",
  [G, "hrosailing/pipeline/expander.py"], [("MultiWeatherModel.get_weather", G), ("WeatherExpander.expand", "hrosailing/pipeline/expander.py")], None, ["get_weather", "expand"])
B="hrosailing/cruising/basics.py"
p("C19", "The recommended course makes the best achievable speed towards the goal",
  "The course returned for a wind speed and a desired direction is a single leg in that direction or two legs whose time-weighted combination heads exactly there; the proportions are not negative and sum to one, the legs of a pair are headings of the diagram's slice with their own sails, a single leg lies on the slice (a heading of it, or between neighbouring headings of one sail), and the resulting speed made good in the desired direction is at least that of sailing directly and of every other pair of the slice's headings. Influences are applied to every heading of the slice, and directions the slice cannot reach are refused with an error.",
  ["inputs"], "all polar diagrams (tables, clouds, curves, multi-sails; one-sided, with zero speeds, convex or not) and all directions",
  "Tests compare a few directions on one example; optimality is a universally quantified statement over all pairs of headings.",
  [B], [("convex hull edge selection", B+": convex_direction")], None, ["convex_direction"])
H="hrosailing/processing/datahandler.py"
p("C20", "NMEA ingestion assigns every sentence's values to the right record",
  "Reading an NMEA stream produces records in stream order where each record holds exactly the values of the sentences that belong to it: a sentence with an attribute that is already present in the current record starts a new one, every parsed value appears exactly once with its attribute name and in its own record, attributes absent from a record are None, and excluded or unknown attributes and values of unwanted types are left out. Longitude, latitude, dates and times carry their hemisphere, sign and full precision.",
  ["histories", "inputs", "configurations"], "all interleavings of sentence types including repeats, unknown, corrupted and partial sentences and all attribute selections",
  "Tests parse two or three sentences; grouping depends on the order of sentences in the stream.",
  [H], [("NMEAFileHandler.handle", H)], [("current record", "attributes since the last new record", H)], ["NMEAFileHandler.handle"])
p("C21", "Csv and array ingestion reproduces the source table cell by cell",
  "Handling a csv file or an array yields a data container with one column per header/key in order, one row per source row in order, and in each cell the source's value (a literal's value as float where numeric, None where empty); nothing is dropped, duplicated or moved. Column names are brought to the standard names, and the reported statistics (number of rows and columns) match.",
  ["inputs"], "all small tables with numeric, text, date and empty cells, all column names and orders",
  "Tests read one file and one array.",
  [H], [("CsvFileHandler/ArrayHandler.handle", H)], None, ["DataHandler.handle"])
IP="hrosailing/processing/interpolator.py"
p("C22", "Interpolators reproduce data exactly, stay in range and ignore point order",
  "At a position coinciding with a data point every interpolator returns the value measured there, and the inverse distance interpolators are continuous there; inverse distance and mean interpolation (scaling factor 1) equal the documented weighted mean and so lie between the smallest and largest value, Shepard's equals the value of Shepard's published scheme (direction-corrected weights, slopes over the neighbourhood) and overshoots by at most the slope parameter times the data's range, and grid interpolation is bilinear on the cell of the query and refuses queries outside the grid. The result does not depend on the order of the data points, the data and the query are not modified, every valid configuration yields a finite number, and empty data or invalid parameters are refused.",
  ["inputs", "configurations"], "all non-empty finite point sets, queries, norms and parameters",
  "Tests evaluate a few fixed configurations against recorded numbers.",
  [IP], [("IDW, ImprovedIDW, ArithmeticMean, Shepard, Grid interpolators", IP)], None, ["Interpolator.interpolate"])
N="hrosailing/processing/neighbourhood.py"
p("C23", "Neighbourhood membership is decided point by point by the documented region",
  "A neighbourhood's membership test returns one boolean per point in order, whatever was asked before: norm at most the radius for balls, norm of the inversely transformed point at most the radius for ellipsoids, each coordinate's length at most the given size for cuboids, all defining inequalities for polytopes, boundary included, and for scaling balls the points no farther than the min_pts-th nearest of the given points (all if there are fewer). The given points are not modified, later changes to the caller's parameter arrays have no effect, and invalid parameters are refused. The Euclidean norm, its scaling by given factors and the documented scaled norm (1/40, 1/360 and 1/20 of the components) have their mathematical values.",
  ["inputs", "configurations"], "all point sets including boundary points, all parameters and norms",
  "Tests evaluate fixed points against fixed shapes.",
  [N], [("is_contained_in of each class", N)], None, ["Neighbourhood.is_contained_in"])
SA="hrosailing/processing/sampler.py"
p("C24", "Samplers return exactly the requested number of points inside the data's extent",
  "A sampler asked for n samples from points that span an area returns, in finite time, exactly n distinct two-dimensional points inside the convex hull of the given points, and the given points are not modified. Archimedean and Fibonacci samples lie on the documented spiral around the midpoint of the smallest circle enclosing the points (golden ratio angles for Fibonacci), uniform samples differ between calls, and requesting a non-positive number of samples is refused.",
  ["inputs", "configurations"], "all point sets including collinear and single-point ones, and all sample counts",
  "Tests check a couple of sample counts for one point set.",
  [SA], [("samplers", SA)], None, ["Sampler.sample"])
BP="hrosailing/polardiagram/_basepolardiagram.py"
p("C25", "Slices are taken at the requested wind speeds and match the diagram",
  "Requesting slices by a single speed, an iterable of speeds or by default gives one slice per wind speed of the request in order, with n_steps further speeds evenly spaced between any two neighbours. Each slice's points carry that wind speed, wind angles in the documented resolution and boat speeds equal to evaluating the diagram there (stored values for table columns; for clouds without interpolator all stored points within the range of it), slices of multi-sail diagrams are those of their sails with the sail of each point as info, and points requested for winds are exactly those winds with the diagram's speeds. Requests that are no numbers or have non-positive steps are refused, and the diagram is not modified, not even through what was handed out.",
  ["inputs", "configurations"], "all diagrams and all forms of slice requests",
  "Tests request one or two forms per class and compare shapes.",
  [BP, T, C, U, M], [("request normalisation", BP+": get_slices"), ("ws_to_slices", "each class")], None, ["get_slices", "ws_to_slices", "get_points"])
PR="hrosailing/plotting/projections.py"
p("C26", "Plots draw exactly the diagram's slices",
  "Plotting a polar diagram draws for each requested wind speed the points of that slice and only those, in order of angle, with angle and speed on the right axes (angle in radians on polar axes), and flat plots draw the same points as polar plots; convex hull plots draw exactly the vertices of the slice's hull in order of angle, closed through where it crosses 0 degrees if it surrounds the boat. Colours follow the wind speed as documented (one for all, a gradient, in turn, or by pairs) and agree with the legend, lines of different sails are never joined, gradient and 3d plots show every point (or the diagram's value for every wind asked for) at its place, the surface's triangles are triangles of such points, data that is no diagram is drawn as given, and the diagram is not modified.",
  ["inputs", "configurations"], "all diagrams, slice requests, axis kinds and colour options",
  "Tests check that plotting does not raise or compare one figure.",
  [PR], [("HROPolar/HROFlat/HROColorGradient", PR)], None, ["matplotlib artists"])
IM="hrosailing/models/influencemodel.py"
p("C27", "Influence removal and application are inverse, per row and shape preserving",
  "Removing influence from data (lists, arrays or a single point) yields one (true wind speed, true wind angle, boat speed) row per data row in row order, using speed over ground when boat speed is missing and converting apparent wind when true wind is missing, refuses data without wind, and adding influence evaluates the diagram at the same rows with the removal reversed. The identity model changes nothing; the wind-angle-correcting model shifts every angle by one and the same amount modulo 360, single value and arrays alike, and fitting sets that shift to the middle of the gap in the measured angles, however the data is rotated, and reports it. The given data is not modified.",
  ["inputs", "histories"], "all tables, fits and query shapes",
  "Tests check one table and one value.",
  [IM], [("IdealInfluenceModel/WindAngleCorrectingInfluenceModel", IM)], [("shift angle", "fitted", IM)], ["remove_influence", "add_influence", "fit"])
CO="hrosailing/core/computing.py"
p("C28", "Apparent and true wind conversion obeys the wind triangle and inverts",
  "Converting apparent to true wind (or back) satisfies the wind triangle: the apparent wind vector is the true wind vector plus the headwind of the boat's own speed, so converting there and back returns the original row and the boat speed column is never changed. Rows are converted independently of each other, angles are in [0, 360), speeds are non-negative, and arrays with negative wind speeds, non-finite values or of wrong shape are refused.",
  ["inputs"], "all finite rows (wind speed, angle, boat speed), any number of rows",
  "Tests check a few rows against recorded numbers.",
  [CO], [("convert_wind", CO)], None, ["convert_apparent_wind_to_true", "convert_true_wind_to_apparent", "PolarDiagramPointcloud(apparent_wind=True)"])
p("C29", "Travel times and reachable distances integrate the course consistently",
  "The times of a cruise add up to the distance on the earth divided by the speed made good of the recommended course, split between its legs in their proportions, for every way of giving the wind. The isochrone in a direction ends at the point of that direction actually reached after the given time, so that sailing there through the weather takes that time (up to the step of the sampling); the cost of a cruise is the integral of the cost density along the straight way plus the absolute cost for its travel time and length. Weather is asked for only at positions on the way and the times the boat is there, the boat sails at the angle between its heading and where the wind comes from, weather that is not available or does not move the boat stops it rather than ending in an error, nothing given is modified, and every call terminates.",
  ["inputs", "configurations"], "all start/end positions, diagrams, times and weather stubs",
  "Tests check one configuration against recorded numbers or only the type.",
  [B], [("cruise/isochrone/cost_cruise/cost_function", B)], None, ["cruise", "cost_cruise", "isochrone", "cost_function"])
GM="hrosailing/models/globe_model.py"
p("C30", "Globe models give a consistent metric, projection and path",
  "For every globe model, projecting positions and converting back returns the positions, the distance of two positions is symmetric, non-negative, zero exactly for equal positions and satisfies the triangle inequality, and positions and distances are those of the sphere (great circle) or the mercator map (straight line) of the given radius. A shortest path of n points starts and ends at the given positions, equal and opposite ones included, with consecutive points equally far apart and total length equal to the distance; the given positions are not modified.",
  ["inputs"], "all pairs/triples of positions including across the equator, meridians and identical ones, all resolutions",
  "Tests check one pair.",
  [GM], [("FlatMercatorGlobe/SphericalGlobe", GM)], None, ["distance", "shortest_path", "project", "lat_lon"])
Q="hrosailing/pipeline/quality_assurance.py"
p("C31", "Quality assurance compares each test point with the diagram once",
  "Quality assurance reports exactly the maximum, minimum, mean and mean square of the absolute differences between measured boat speeds and the diagram's speed at each test point's wind, every test point contributing once whatever their order; the comforming one also the same aggregates of the diagram's absolute speed at 0 and 360 degrees for wind speeds from 0 to 20, the number of distinct rounded test winds and the mean spread of speeds within them. Empty test data gives no error statistics instead of an error or a wrong one, and the test data is not modified.",
  ["inputs"], "all diagrams and all test point sets",
  "Tests check the presence of keys.",
  [Q], [("quality assurance", Q)], None, ["QualityAssurance.check"])
RG="hrosailing/processing/regressor.py"
p("C32", "Regression reproduces noise-free data of its own model family",
  "Fitting a regressor to points (not all at rest) generated exactly by its model function returns parameters that reproduce those points; for model functions linear in their parameters the result is the least squares optimum of any data, with given or default initial values. It does not depend on the order of the points or on earlier fits, the data and initial values given are not modified, the model function is handed out unchanged, and data that is empty or not of three columns is refused and leaves the parameters of the last fit.",
  ["inputs", "histories"], "all parameter vectors of well conditioned model families, all sufficiently rich point sets and refit histories",
  "Tests fit a few fixed data sets.",
  [RG], [("ODRegressor/LeastSquareRegressor", RG)], [("optimal_params", "state of last fit", RG)], ["Regressor.fit", "optimal_params"])
MF="hrosailing/core/modelfunctions/__init__.py"
p("C33", "Model functions evaluate their documented formulas elementwise",
  "Every model function for curves evaluates the formula of its documentation with the parameters in their documented order, elementwise: each entry of the result belongs to the wind speed and wind angle at the same place, so that numbers, arrays of any shape and a number combined with an array give the same values and keep the shape. Parameters, wind speeds and wind angles given are not modified.",
  ["inputs", "configurations"], "all model functions, parameter vectors, winds and shapes of arguments",
  "No test of the suite calls a model function with more than trivial parameters.",
  [MF, "hrosailing/core/modelfunctions/_models2d.py"], [("model functions of wind speed and angle", MF), ("one dimensional parts", "hrosailing/core/modelfunctions/_models2d.py")], None, ["hrosailing.core.modelfunctions"])
p("C34", "Weighted points keep every point together with its own weight",
  "Weighted points hold one weight per point, a single weight given for all standing for each of them, for points in arrays, dictionaries and data containers. Masking keeps exactly the selected points with their own weights in order and leaves the original unchanged; extending appends the other's points with their weights, dictionaries keeping the common keys and data containers matching columns by name whatever their order, and leaves the other unchanged.",
  ["histories", "inputs"], "all containers, weights and histories of masking and extending",
  "Tests mask and extend one fixed container once.",
  [D], [("WeightedPoints", D)], [("data, weights", "parallel rows", D)], ["WeightedPoints"])
p("C35", "Weather read from NetCDF files and meteostat is the grid they contain",
  "A NetCDF weather model has the latitudes and longitudes of the file in ascending order whatever their order in the file, the times start + step * unit for hours and seconds (also fractional ones), and one attribute per variable, and evaluates every variable at the node it belongs to whatever order of dimensions the variable has, with the index chosen by the user in further dimensions (without a choice the query is refused); other units of time are refused. Weather fetched from meteostat is the grid of the fetched hours with the wanted attributes in the wanted order, also if some locations have no data. In between both interpolate like any gridded model and refuse the outside.",
  ["inputs", "configurations"], "all file layouts (order of axes and dimensions, further dimensions, units, aliases), service answers and query points",
  "No test reads a NetCDF file or meteostat data at all (the modules are not installed).",
  ["hrosailing/models/weather_model.py"], [("NetCDFWeatherModel", "hrosailing/models/weather_model.py"), ("from_meteostat", "hrosailing/models/weather_model.py")], None, ["NetCDFWeatherModel", "GriddedWeatherModel.from_meteostat"])
p("C36", "Printed diagrams, directions, data and statements show what they hold",
  "The printed form of a table lists its wind speeds with one decimal, a rule, and one line per wind angle with the angle and the boat speeds with two decimals in the same columns; tables of more than 15 wind speeds show the first and the last five columns and dots between. A printed point cloud lists every point in order with two decimals, a printed multi-sail diagram each sail's name followed by its table. After every edit the printed form shows the edited entry and everything else unchanged; printing changes nothing. A printed sailing direction names its angle, its share in percent and its sail; printed data list per field its type and items (first and last five of ten or more); printed fuzzy statements are the expression they were built from, bracketed so that it can be read back.",
  ["inputs", "configurations"], "all tables, clouds and multi-sail diagrams with their edits, directions, data tables and nested fuzzy statements",
  "No test looks at the columns or entries of a printed object.",
  ["hrosailing/polardiagram/_polardiagramtable.py", "hrosailing/polardiagram/_polardiagrampointcloud.py", "hrosailing/polardiagram/_polardiagrammultisails.py"], [("__str__", "hrosailing/polardiagram/_polardiagramtable.py"), ("_concat_repr", "hrosailing/processing/weigher.py")], None, ["PolarDiagramTable.__str__", "PolarDiagramPointcloud.__str__", "PolarDiagramMultiSails.__str__", "Direction.__str__", "Data.__str__", "FuzzyBool.__str__"])
p("C37", "Unsupported configurations and arguments are refused, supported ones work",
  "A component with a meaningless configuration (a radius, number of samples, tolerance, slope or factor that is not positive, a negative length or power, a power that is no integer, a percentage outside 0 to 100, an upper bound below the lower one, a matrix that is singular or of the wrong shape) cannot be made, and an operation is refused for arguments it does not support (operands that are neither weighers nor numbers, data without boat speed, arrays of the wrong shape, an unknown file format, wind that is no pair, nothing to interpolate, fewer than three points for the spiral); every supported configuration, the borderline ones included, can be made and does its work.",
  ["inputs", "configurations"], "all components with the enumerated parameters and all listed operations with the enumerated kinds of arguments",
  "The tests try single unsupported values of some components.",
  ["hrosailing/processing", "hrosailing/polardiagram/_basepolardiagram.py"], [("Ball", "hrosailing/processing/neighbourhood.py"), ("QuantileFilter", "hrosailing/processing/filter.py"), ("IDWInterpolator", "hrosailing/processing/interpolator.py")], None, ["Ball", "Ellipsoid", "Polytope", "IDWInterpolator", "QuantileFilter", "Weigher.__add__", "PolarDiagram.get_points"])
p("C38", "Leaving an optional argument out means its documented default",
  "For every component, polar diagram operation, plot, cruising function, globe model and pipeline with optional arguments, a call that leaves an optional argument out does the same as the call that gives the documented default value, whatever the other arguments are and whatever was called before; and the outcome depends on the values in effect only.",
  ["inputs", "configurations"], "all combinations of omitted, default and other values for up to three optional arguments (one or all but one given for more) of every public operation with documented defaults, random data",
  "The tests give most arguments explicitly or leave them out, and never compare the two.",
  ["hrosailing/processing", "hrosailing/polardiagram", "hrosailing/pipeline", "hrosailing/plotting", "hrosailing/cruising", "hrosailing/models"], [("Ball", "hrosailing/processing/neighbourhood.py"), ("TableExtension", "hrosailing/pipeline/extensions.py"), ("PolarPipeline", "hrosailing/pipeline/pipeline.py"), ("cruise", "hrosailing/cruising/basics.py")], None, ["Ball", "QuantileFilter", "IDWInterpolator", "TableExtension", "PolarDiagramPointcloud.get_slices", "PolarPipeline", "cost_cruise", "isochrone"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(x) + "\n")
    print(len(P))

------------------------------- MODULE Defaults -------------------------------
(* Optional arguments.  A call leaves each of its optional arguments out, gives
   the documented default or gives something else ("other").  What a call does
   depends on the values in effect only: leaving an argument out is the same as
   giving its documented default.
   Units: the operations and components with their optional arguments; the
   documented default values are in the table of the harness (checks/c38.py).   *)
EXTENDS Integers, Sequences, FiniteSets
Units == {
  <<"Ball", <<"radius", "norm">>>>,
  <<"ScalingBall", <<"norm">>>>,
  <<"Ellipsoid", <<"lin_trans", "norm", "radius">>>>,
  <<"Cuboid", <<"norm", "dimensions">>>>,
  <<"Polytope", <<"mat", "b">>>>,
  <<"IDWInterpolator", <<"p", "norm">>>>,
  <<"ArithmeticMeanInterpolator", <<"s", "norm", "params">>>>,
  <<"ArithmeticMeanInterpolatorD", <<"params">>>>,
  <<"ImprovedIDWInterpolator", <<"norm">>>>,
  <<"ShepardInterpolator", <<"tol", "slope", "norm">>>>,
  <<"CylindricMeanWeigher", <<"radius", "norm", "dimensions">>>>,
  <<"CylindricMemberWeigher", <<"radius", "length", "norm", "dimensions">>>>,
  <<"FuzzyVariable", <<"key">>>>,
  <<"FuzzyVariable.sharp", <<"sharpness">>>>,
  <<"QuantileFilter", <<"percent">>>>,
  <<"BoundFilter", <<"lower_bound", "upper_bound">>>>,
  <<"AffineSmoother", <<"timespan">>>>,
  <<"FillLocalImputator", <<"fill_before", "fill_between", "fill_after", "max_time_diff">>>>,
  <<"WeatherExpander", <<"exception_handling_mode">>>>,
  <<"MultiWeatherModel", <<"exception_sensitive">>>>,
  <<"ODRegressor", <<"max_it">>>>,
  <<"LeastSquareRegressor", <<"init_vals">>>>,
  <<"CsvFileHandler", <<"date_format">>>>,
  <<"NMEAFileHandler", <<"wanted_sentences", "wanted_attributes", "unwanted_sentences", "unwanted_attributes", "post_filter_types">>>>,
  <<"TableExtension", <<"wind_resolution", "neighbourhood", "interpolator">>>>,
  <<"CurveExtension", <<"regressor", "radians">>>>,
  <<"PointcloudExtension", <<"sampler", "neighbourhood", "interpolator">>>>,
  <<"WindAngleCorrectingInfluenceModel", <<"interval_size", "wa_shift">>>>,
  <<"FlatMercatorProjection", <<"earth_radius">>>>,
  <<"FlatMercatorProjection.axes", <<"virt_northpole", "virt_zero">>>>,
  <<"SphericalGlobe", <<"earth_radius">>>>,
  <<"shortest_path", <<"res">>>>,
  <<"shortest_projected_path", <<"res">>>>,
  <<"table.call", <<"interpolator", "neighbourhood">>>>,
  <<"table.get_slices", <<"ws", "n_steps", "full_info">>>>,
  <<"table.get_slices.between", <<"interpolator">>>>,
  <<"convex_direction.influenced", <<"influence_data">>>>,
  <<"cruise.influenced", <<"influence_data">>>>,
  <<"table.change_entries", <<"ws", "wa">>>>,
  <<"table.to_csv", <<"fmt">>>>,
  <<"table.make", <<"ws_resolution", "wa_resolution">>>>,
  <<"cloud.call", <<"interpolator", "neighbourhood">>>>,
  <<"cloud.get_slices", <<"ws", "full_info", "range_">>>>,
  <<"cloud.get_slices.interpolated", <<"wa_resolution">>>>,
  <<"cloud.ws_to_slices", <<"range_">>>>,
  <<"cloud.ws_to_slices.interpolated", <<"wa_resolution">>>>,
  <<"curve.ws_to_slices", <<"wa_resolution">>>>,
  <<"table.ws_to_slices", <<"interpolator">>>>,
  <<"sails.get_slices", <<"ws", "full_info">>>>,
  <<"cloud.make", <<"apparent_wind">>>>,
  <<"cloud.add_points", <<"apparent_wind">>>>,
  <<"curve.make", <<"radians">>>>,
  <<"curve.get_slices", <<"ws", "full_info", "wa_resolution">>>>,
  <<"from_csv", <<"fmt">>>>,
  <<"convex_direction", <<"im">>>>,
  <<"cruise", <<"wind_fmt", "im">>>>,
  <<"cost_cruise", <<"cost_fun_dens", "cost_fun_abs", "im">>>>,
  <<"cost_cruise.density", <<"integration_method">>>>,
  <<"isochrone", <<"total_time", "min_nodes", "im">>>>,
  <<"Data.rows", <<"keys", "return_type">>>>,
  <<"Data.fill", <<"len_", "keys">>>>,
  <<"Data.strip", <<"mode">>>>,
  <<"Data.update", <<"compress">>>>,
  <<"gompertz_model", <<"neg">>>>,
  <<"s_shaped", <<"downturn">>>>,
  <<"polynomial_function", <<"deg">>>>,
  <<"concave_function", <<"downturn", "sat_limit">>>>,
  <<"polar.plot", <<"ws", "colors", "show_legend", "use_convex_hull">>>>,
  <<"polar.plot.legend", <<"legend_kw">>>>,
  <<"flat.plot", <<"ws", "colors", "show_legend", "use_convex_hull">>>>,
  <<"flat.plot.legend", <<"legend_kw">>>>,
  <<"polar.scatter", <<"ws", "colors", "show_legend", "use_convex_hull">>>>,
  <<"polar.scatter.legend", <<"legend_kw">>>>,
  <<"flat.scatter", <<"ws", "colors", "show_legend", "use_convex_hull">>>>,
  <<"flat.scatter.legend", <<"legend_kw">>>>,
  <<"gradient", <<"wind", "colors", "show_legend">>>>,
  <<"3d.scatter", <<"wind", "colors">>>>,
  <<"3d.surface", <<"wind", "colors">>>>,
  <<"pipeline", <<"imputator", "smoother", "pre_weigher", "pre_filter", "expander", "influence_model", "post_weigher", "post_filter", "injector", "extension">>>>,
  <<"pipeline.execute", <<"pre_expander_weighing", "pre_expander_filtering", "pre_weighing", "pre_filtering", "smoothing", "weighing", "filtering", "injecting">>>> }
Given == {"omitted", "default", "other"}
Effective(c) == [i \in DOMAIN c |-> IF c[i] = "omitted" THEN "default" ELSE c[i]]
(* observed runs: each a configuration and a digest of what came out            *)
SameInEffect(runs) == \A i, j \in DOMAIN runs : Effective(runs[i].c) = Effective(runs[j].c) => runs[i].got = runs[j].got
(* the configurations tried: all of them for few arguments                      *)
Odd(c, x) == Cardinality({ i \in DOMAIN c : c[i] # x })
Tried(n) == IF n <= 3 THEN [1..n -> Given]
            ELSE { c \in [1..n -> Given] : Odd(c, "omitted") <= 1 \/ Odd(c, "default") <= 1 }
===============================================================================

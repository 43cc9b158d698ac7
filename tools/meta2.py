from meta import PR, na, prop  # noqa: F401

SP = "pycomlink/spatial/"
WD = PR + "wet_dry/"

prop(
    "C11",
    "Inverse distance interpolation equals the weighted mean of its nearest points",
    """For every set of data points, values and query point, the interpolated value is the mean of the values of the nearest points (at most
    the requested number, only those strictly inside the distance limit if there is one) weighted with distance to the power of minus the exponent.
    At a data point it is exactly the value there, without any point inside the limit it is NaN, and it always lies between the smallest and largest value.
    Every query point and every component of vector values is computed on its own; fewer than two requested neighbours are rejected.""",
    "all values, query positions, point positions, exponents, neighbour counts and distance limits",
    "tests interpolate a handful of fixed points; special cases (coinciding points, missing neighbours) depend on the geometry",
    [SP + "idw.py"],
    [("Invdisttree.__call__", SP + "idw.py"), ("_numba_idw_loop", SP + "idw.py")],
)
prop(
    "C12",
    "A grid interpolator's result depends only on the current call, gaps left out",
    """Whatever an interpolator object was called with before, the grid it returns is what a new one would return: changing points, grid, values, neighbour
    count, exponent or distance limit (also by changing the arrays in place) is always noticed. Points whose value is NaN are left out (if so configured); if no valid value is
    left the whole grid is NaN. The result has the shape of the grid, and a grid generated from a resolution is regular with that spacing, starts at or before the first point and reaches the last one.
    The kriging interpolator passes exactly the valid points and its configuration on and lays the result out on the grid.""",
    "all histories of calls, all values and NaN patterns",
    "tests call each interpolator once or twice; stale caches only show up in particular call sequences",
    [SP + "interpolator.py", SP + "idw.py"],
    [("PointsToGridInterpolator.__call__", SP + "interpolator.py"), ("IdwKdtreeInterpolator._interpol_func", SP + "interpolator.py"),
     ("OrdinaryKrigingInterpolator._interpol_func", SP + "interpolator.py"), ("Invdisttree.__call__", SP + "idw.py")],
    over=("inputs", "histories"),
)
prop(
    "C13",
    "Great circle distances are symmetric, bounded, never NaN and follow the formula",
    """For every pair of longitude/latitude positions the distance is the haversine great circle distance on a sphere of radius 6367 km: 0 for identical points, symmetric,
    between 0 and half the circumference, and never NaN, also for antipodal points, the poles and across the date line. Arrays and DataArrays are computed element by element.""",
    "all longitudes and latitudes",
    "tests use a single pair of positions; rounding near antipodal points needs particular inputs",
    [SP + "helper.py"],
    [("haversine", SP + "helper.py")],
)
prop(
    "C14",
    "Distances between link end points belong to the right ends and the right links",
    """For every network the four distance tables (a to a, a to b, b to a, b to b) hold at (link 1, link 2) the great circle distance between the named end of link 1 and
    the named end of link 2, labelled with the given ids in the given order, and 0 on the diagonal. Coordinates may be arrays, lists or DataArrays.""",
    "all link positions and id orders",
    "tests use one small network with stored numbers; swapped ends or a transposed table can cancel in it",
    [WD + "nearby_wetdry.py", SP + "helper.py"],
    [("calc_distance_between_cml_endpoints", WD + "nearby_wetdry.py")],
)
prop(
    "C15",
    "Nearby link wet/dry classification follows its rule for every link and step",
    """A link's neighbours are the links (itself included) for which all four end point distances from it are below the radius, matched by id. With more than min_links of them valid at a step, the step is wet if
    the median of their drops below the maximum of the preceding window, and the median of those drops per km, are both below their thresholds (or if the link itself dropped by more than 2 dB at such a step
    one step before, or one or two steps after); otherwise it is NaN. F is the sum over the window of the difference between the link's own drop per km and that median, times the interval in hours.
    Hours are converted to steps with the given interval, and too few valid samples in the window make a drop unknown.""",
    "all level histories with gaps, all networks, thresholds, windows and intervals",
    "tests compare one stored network; the rule depends on combinations of gaps, neighbourhoods and windows",
    [WD + "nearby_wetdry.py"],
    [("nearby_wetdry", WD + "nearby_wetdry.py")],
)
prop(
    "C16",
    "Nearby link reference level and corrected signals follow their rule",
    """The reference level at a step is the median of the mean of minimum and maximum level over those of the last n steps that are dry and have both levels, NaN with fewer than the needed number of such steps.
    The corrected minimum level is the minimum level at wet steps where it is below the reference and the reference level everywhere else; the corrected maximum is the maximum level where in addition that is below the reference.
    Corrected levels never exceed the reference, equal it at every step that is not wet, and are NaN only where the reference is. Every link is treated on its own, in any dimension order.""",
    "all level series with gaps, all wet/dry/unknown patterns, all windows",
    "tests compare one stored link without unknown flags",
    [PR + "nearby_rain_retrival.py"],
    [("nearby_determine_reference_level", PR + "nearby_rain_retrival.py"), ("nearby_correct_received_signals", PR + "nearby_rain_retrival.py")],
)
prop(
    "C17",
    "Nearby link rain rate combines minimum and maximum attenuation as documented",
    """The rain rate is alpha times the rate of the attenuation from the corrected minimum level plus (1-alpha) times that from the corrected maximum level, each reduced by the wet antenna attenuation, 0 where that is negative, and inverted
    through the power law with given a, b or with those of frequency and polarization. Steps where F is at or below its threshold, or a level is NaN, are NaN. It is never negative, 0 without attenuation, and does not fall
    when attenuation grows. Either a and b or frequency and polarization must be given, anything else raises ValueError; every link uses its own length and parameters.""",
    "all levels, gaps, parameters and thresholds",
    "tests compare stored numbers for one link and the default parameters",
    [PR + "nearby_rain_retrival.py", PR + "k_R_relation.py", PR + "xarray_wrapper.py"],
    [("nearby_rainfall_retrival", PR + "nearby_rain_retrival.py")],
)
prop(
    "C18",
    "Wrapped functions give every labelled series the result of the plain function",
    """A function wrapped for labelled arrays returns, for every combination of the other dimensions, what the plain function returns for that one series, under the same labels and in any order of dimensions, for one or several outputs.
    Arguments mean the same whether given by position, by keyword or by default, values per link go with their link, unknown or missing arguments are rejected as by the plain function, labelled arguments that are not for the same labels are rejected with ValueError, series of different links are never combined, and without any time dimension the function is called unchanged.""",
    "all arrays, dimension orders and ways of passing arguments",
    "the test applies the wrapper to one function with one layout",
    [PR + "xarray_wrapper.py"],
    [("xarray_apply_along_time_dim", PR + "xarray_wrapper.py")],
)
prop(
    "C19",
    "Every MLP wet/dry decision uses exactly its own window and model",
    """The classifier of the selected model sees for a time step of the online models the 40 one-step differences up to that step, of the other models the 20 samples before and the 20 from the step on, relative to the median of the samples within
    six hours around each (at least 120 of them), channel A first, channel B second. A step without a complete window of valid values gets NaN, every step has one row with the probabilities of dry and wet, and unknown models are rejected.""",
    "all level histories with gaps",
    "tests run one recorded link against stored probabilities; an off by one in the windows changes them within their tolerance",
    [WD + "mlp.py"],
    [("mlp_wet_dry", WD + "mlp.py")],
)
prop(
    "C20",
    "Every pytorch wet/dry prediction belongs to its own link, window and time step",
    """For all data, links, channels, window sizes, reference lengths and batch sizes, the value stored for a link at time step t is the output of the model for that link's window of all channels ending half the reference length
    minus one step after t; links and times without a complete window hold NaN. Results are stored by id and time stamp in whatever order they come, ids and times that are not in the data are skipped, and the input is kept.""",
    "all data, gaps, layouts, batch sizes, reference lengths",
    "tests run one model on random data and look at shapes",
    [PR + "pytorch_utils/run_inference.py", PR + "pytorch_utils/pytorch_utils.py"],
    [("cnn_wd", PR + "pytorch_utils/run_inference.py"), ("run_inference", PR + "pytorch_utils/run_inference.py"), ("redistribute_results", PR + "pytorch_utils/run_inference.py"),
     ("build_dataloader", PR + "pytorch_utils/pytorch_utils.py")],
)
prop(
    "C21",
    "Every tensorflow wet/dry prediction belongs to its own link, window and step",
    """For all data, links, variables and window lengths, the value stored for a link at a time step is the output of the network for that link's window of the input variables, in the given order, that ends at this step, scaled by mean and standard deviation of each variable over all windows used;
    a step whose window is incomplete or contains a missing value holds NaN, and so do links not selected. Other variables of the dataset are kept unchanged, and mismatching lengths or an unknown id coordinate are rejected.""",
    "all data, gaps, layouts, window lengths, names and selections",
    "tests run the pipeline on random data and look at shapes",
    [PR + "tensorflow_utils/run_inference.py", PR + "tensorflow_utils/inference_utils.py"],
    [("wet_dry_1d_cnn", PR + "tensorflow_utils/run_inference.py"), ("create_samples", PR + "tensorflow_utils/inference_utils.py"), ("scale_features", PR + "tensorflow_utils/inference_utils.py"),
     ("store_predictions", PR + "tensorflow_utils/inference_utils.py")],
)
prop(
    "C22",
    "The model cache only ever yields complete files of the requested URL",
    """After any history of requests, forced downloads, listings, clearings, failed and interrupted downloads, requesting a URL gives the complete content of that URL or raises an exception, never a partial file or the file of another URL. A complete cached file is used
    without a new download unless one is forced, a failed download is reported and repeated at the next request, the listing shows exactly the complete models, and clearing removes them. Local paths are loaded as they are; unusable ones are refused.""",
    "all histories of operations and all points at which a download fails or the process dies",
    "tests download once with a mocked transfer; interrupted transfers and name clashes between URLs need particular histories",
    [PR + "pytorch_utils/inference_utils.py", PR + "tensorflow_utils/inference_utils.py"],
    [("download_and_cache_model", PR + "pytorch_utils/inference_utils.py"), ("get_model", PR + "pytorch_utils/inference_utils.py"), ("list_cached_models", PR + "pytorch_utils/inference_utils.py"),
     ("clear_model_cache", PR + "pytorch_utils/inference_utils.py"), ("download_and_cache", PR + "tensorflow_utils/inference_utils.py"), ("resolve_model_paths", PR + "tensorflow_utils/inference_utils.py")],
    over=("inputs", "histories", "crash_points", "fault_sequences"),
)
prop(
    "C23",
    "Reading a cmlh5 file keeps every sample with its link, channel, time and units",
    """For every file the result has one dataset per link with its id and site coordinates, holding for every channel each transmitted and received level at its own time stamp, NaN at times of other channels,
    the frequency converted from Hz to GHz, the channel's polarization, and the great circle distance of the sites as length.""",
    "all levels, gaps, coordinates, frequencies and channel layouts",
    "tests read one file in which all channels share the same times",
    ["pycomlink/io/cmlh5_to_xarray.py", SP + "helper.py"],
    [("read_cmlh5_file_to_xarray", "pycomlink/io/cmlh5_to_xarray.py")],
)
prop(
    "C24",
    "Grid validation compares the link with the pixels and times it really covers",
    """The grid time series of a link is, at every grid time strictly inside the period covered by its channels, the sum of the pixel values weighted with the intersection weights of exactly this link and grid, independent of pixels away from the link.
    Resampling gives each grid time the mean of the link's samples up to it since the previous one (label right) or from it until the next one (label left). The correlation is Pearson's over equal time stamps, the wet and dry errors are
    the missed fraction of wet and the false fraction of dry samples, and inputs are left unchanged.""",
    "all pixel values, weights, link periods and samples",
    "the only test calls the constructor",
    ["pycomlink/validation/validator.py"],
    [("GridValidator.get_time_series", "pycomlink/validation/validator.py"), ("GridValidator.resample_to_grid_time_series", "pycomlink/validation/validator.py"),
     ("Validator.calc_stats", "pycomlink/validation/validator.py"), ("calc_wet_dry_error", "pycomlink/validation/validator.py")],
)
prop(
    "C25",
    "The coverage mask marks exactly the grid points near any link",
    """For every grid, set of links and distance, a grid point is marked exactly if its distance to the straight path (with both ends) of at least one link is at most the given distance, up to 1 % for the polygon
    approximation of round ends. The mask is boolean, has the shape of the grid, and is False everywhere without links; a link whose sites coincide counts as a point.""",
    "all link and grid positions and distances",
    "there is no test of the function",
    [SP + "coverage.py"],
    [("calc_coverage_mask", SP + "coverage.py")],
)
prop(
    "C26",
    "Fourier transform wet/dry flags compare each step's spectrum with the dry one",
    """A step is wet exactly if the mean of its normalized power at frequencies up to the dividing one minus the mean at higher ones exceeds the threshold. The spectrum of a step is that of the window centred on it (of the mirrored half window for the last steps if mirrored), normalized per frequency
    with the mean over the valid columns of the dry period; steps without complete window or with missing values are not wet and hold NaN. The dry period is the one given or, for a given length, the first period of this length with the
    lowest standard deviation; other combinations raise AttributeError, and a spectrum without its frequencies raises ValueError.""",
    "all spectra, levels, thresholds, dividing frequencies and dry periods",
    "no test covers the function",
    [WD + "stft.py"],
    [("stft_classification", WD + "stft.py"), ("find_lowest_std_dev_period", WD + "stft.py")],
)
prop(
    "C27",
    "No processing function changes the data it is given",
    """For every input, also with missing values and also if the call is refused, arrays, DataArrays, Datasets, DataFrames and Series passed to the processing, spatial, aggregation and validation functions have the same values, labels, variables and
    type after the call as before.""",
    "all inputs of all public functions that take arrays",
    "tests look at return values; an input that was changed in place only matters to the caller's next step",
    [PR + "baseline.py", PR + "blackout_gap_detection.py", PR + "k_R_relation.py", PR + "min_max.py", PR + "nearby_rain_retrival.py", PR + "wet_antenna.py", WD + "nearby_wetdry.py", WD + "mlp.py", WD + "stft.py",
     SP + "interpolator.py", SP + "idw.py", SP + "helper.py", SP + "coverage.py", "pycomlink/util/temporal.py", "pycomlink/validation/stats.py", "pycomlink/validation/validator.py",
     PR + "pytorch_utils/run_inference.py", PR + "tensorflow_utils/inference_utils.py"],
    [("all public functions taking arrays", "pycomlink/")],
    observe=["the arguments after the call"],
)
prop(
    "C28",
    "Time aggregation groups every sample under the right time stamp",
    """Within the period covered by both the data and the new time stamps, every sample is aggregated under the first new time stamp at or after it (label right) or the last one at or before it (label left), in order, with the given function and per column; time stamps without samples
    are left out, and so are samples without a time stamp in that period. Time stamps denote the same instants whatever the time zones of data and labels, naive ones being in the given zone (UTC by default); unknown labels raise NotImplementedError.""",
    "all sample patterns and values, labels and time zones",
    "no test covers the function",
    ["pycomlink/util/temporal.py"],
    [("aggregate_df_onto_DatetimeIndex", "pycomlink/util/temporal.py")],
)
prop(
    "C29",
    "Climatological variogram parameters follow the published formulas",
    """For every date and duration, range (in km) and sill of the variogram are the fourth powers of the published seasonal cosine functions of day of year and duration, and the nugget is a tenth of the sill, whatever the form in which the date is given.""",
    "all days of the year and all durations",
    "tests cover at most the default date",
    [SP + "interpolator.py"],
    [("clim_var_param", SP + "interpolator.py")],
)
prop(
    "C30",
    "TensorFlow is never installed without consent",
    """If tensorflow can be imported nothing is ever installed. Otherwise a package is installed (with pip of the running Python, the variant with CUDA exactly if nvidia-smi finds a GPU) only if auto_install is given or ALLOW_TF_AUTOINSTALL is 1, and ImportError is
    raised in all other cases; a failed installation is reported, and a loaded module is kept for later calls.""",
    "all combinations of machine, arguments and environment, and histories of calls",
    "tests run with tensorflow installed",
    [PR + "tensorflow_utils/lazy_tf.py"],
    [("get_tf", PR + "tensorflow_utils/lazy_tf.py"), ("ensure_tensorflow_installed", PR + "tensorflow_utils/lazy_tf.py")],
    over=("configurations", "histories", "fault_sequences"),
)
prop(
    "C31",
    "Kriged fields are the best linear unbiased estimate",
    """For every set of points and values the kriging interpolator returns the ordinary kriging estimate of the configured variogram at every grid point.""",
    "all points, values and variograms",
    "tests compare one field with stored numbers",
    [SP + "interpolator.py"],
    [("OrdinaryKrigingInterpolator", SP + "interpolator.py")],
)
na("C31", """The estimate is computed by pykrige (variogram fitting by iterative optimisation and LAPACK solves), which is not code of this repository and cannot be encoded within reach;
what pycomlink passes to pykrige and how it lays out the result is decided under C12.""")
prop(
    "C32",
    "The thin film model of a wet antenna holds for every frequency and temperature",
    """For every frequency, temperature and antenna parameter the Leijnse wet antenna attenuation equals the transmission loss of the layered antenna with the permittivity of water after Liebe.""",
    "all frequencies, temperatures and antenna parameters",
    "tests compare a few frequencies with stored numbers",
    [PR + "wet_antenna.py"],
    [("waa_leijnse_2008", PR + "wet_antenna.py"), ("eps_water", PR + "wet_antenna.py")],
)
na("C32", """The model is built from complex exponentials and complex square roots of the frequency; no solver at hand has a theory for them and an uninterpreted encoding would only compare the
code with a copy of itself. C07 decides bounds, monotonicity and consistency of the results for listed links and all rain rates.""")
prop(
    "C33",
    "Plots of a link and its grid show the pixels the link crosses",
    """The plot of the intersections shows the weights of the pixels crossed by the link at their positions.""",
    "all links and grids",
    "no test looks at figures",
    ["pycomlink/validation/validator.py"],
    [("GridValidator.plot_intersections", "pycomlink/validation/validator.py")],
)
na("C33", """What is drawn is decided by matplotlib and poligrain, neither of which can be encoded; with the installed poligrain the function cannot be run at all (it passes an argument that poligrain does not accept).""")

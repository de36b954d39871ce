"""More properties, in words."""
from propdata import P, N, A, U, C, SOUND, LIMIT

MORE = [
    P('P09', 'b-values are per decade, beta per e-fold; angles are in radians',
      'Units are consistent everywhere: a b-value is the slope in base-10 '
      'logarithms per magnitude unit and beta = b ln(10); whatever is asked '
      'for as beta (value and standard deviation) is ln(10) times what is '
      'returned as b-value, for every estimator and function with such an '
      'option; quantities are never added, compared or exponentiated in '
      'inconsistent units; trigonometric functions receive radians.',
      ['inputs', 'configurations'],
      'every estimator and public numerical function, all finite options, '
      'all input values',
      'A test compares one number for one option; a factor ln(10) missing '
      'in one of many branches (a standard deviation, a beta variant, a '
      'plot line) yields plausible numbers.',
      [A + 'bvalue', A + 'estimate_mc.py', A + 'b_significant.py',
       U + 'simulate_distributions.py', A + 'declustering/utils.py',
       'seismostats/plots/statistical.py'],
      [('b_value_to_beta', A + 'bvalue/utils.py'),
       ('beta, std_beta', A + 'bvalue/base.py'),
       ('b_parameter', A + 'bvalue, ' + U + 'simulate_distributions.py')],
      'dimensional analysis over the abstract terms; relational runs with '
      'b_parameter "b_value" and "beta"',
      SOUND + 'Units (magnitude, ln 10, time, degree) are inferred for every '
      'term built; inconsistent sums, comparisons, exponents and results, '
      'and results that are not ln(10)-scaled between the two parameters, '
      'are reported.' + LIMIT),
    P('P29', 'Only magnitude differences matter: no absolute magnitude scale',
      'Adding the same constant (for binned magnitudes a multiple of the bin width) to all magnitudes, completeness magnitudes '
      'and reference magnitudes changes no b-value, a-value, standard '
      'deviation, test statistic, p-value, count or selection of events. '
      'Completeness estimates move by that constant.',
      ['inputs'],
      'all estimators and analysis functions, all magnitudes and shifts',
      'Tests never repeat a computation with shifted magnitudes; a formula '
      'that uses a magnitude instead of its distance to the completeness '
      'goes unnoticed when the completeness is near zero.',
      [A + 'bvalue', A + 'avalue', A + 'estimate_mc.py',
       A + 'b_significant.py', U + 'binning.py', 'seismostats/plots'],
      [('mean(magnitudes - mc)', A + 'bvalue'),
       ('magnitude differences', A + 'bvalue/positive.py')],
      'shift-degree analysis over the abstract terms',
      SOUND + 'Every term gets its degree under a common shift (1 magnitude, '
      '0 difference); arguments of comparisons, logarithms, exponentials, '
      'powers and divisors, and all results named in the statement, must '
      'have degree 0.' + LIMIT),
    P('P10', 'Every combination of options works and returns what it announces',
      'With valid data, every combination of option values and of given and '
      'omitted optional arguments of every public function and method ends '
      'normally: no variable is used before it is set, no attribute or key '
      'is missing, no None is used as a number. The number of returned values is the documented one and what the return options say, a function that announces a value never returns None, the b_parameter option decides '
      'what every estimator reports, and after calculate() every documented '
      'property of an estimator can be read.',
      ['configurations'],
      'all combinations of the finite options and of given/omitted optional '
      'arguments of all public functions and methods',
      'Options multiply: the tests run a few combinations of each function; '
      'a branch that is only taken by one combination fails when a user '
      'takes it.',
      [A + 'bvalue', A + 'avalue', A + 'estimate_mc.py', C,
       'seismostats/plots', U],
      [('return options', A + 'bvalue/utils.py; ' + A + 'estimate_mc.py'),
       ('properties', A + 'bvalue/base.py; ' + A + 'avalue/base.py')],
      'abstract execution of every option combination (definite assignment, '
      'attribute existence, None use, arity of results)',
      SOUND + 'Reported are internal errors (unbound names, missing '
      'attributes and keys, None in arithmetic) on any reached path, '
      'configurations with no normal exit, and results whose arity differs '
      'from the return options.' + LIMIT),
    P('P11', 'Results describe the last calculation only, and exist only after it',
      'What an estimator reports after calculate() depends on the arguments '
      'of that calculate() only: nothing of an earlier calculation (weights, '
      'times, cached values) survives, and reading a result property before '
      'the first calculate() raises AttributeError. In the same way, '
      'calling a method of a catalog, window, declustering or '
      'coordinate object again with other arguments gives what a fresh '
      'object would give.',
      ['histories'],
      'all sequences of calls on one object',
      'Tests use a fresh object for each calculation; state left behind '
      'shows only in the second call with other optional arguments.',
      [A + 'bvalue/base.py', A + 'avalue/base.py',
       A + 'declustering', C + 'catalog.py', U + 'coordinates.py'],
      [('calculate sets all fields', A + 'bvalue/base.py; '
        + A + 'avalue/base.py')],
      'abstract execution of call sequences (two calculations on one '
      'object, provenance of all results)',
      SOUND + 'Objects are used twice with disjoint symbolic inputs and '
      'different given/omitted arguments; every result may depend on inputs '
      'of the last call only and must equal the fresh one where both are '
      'known.' + LIMIT),
    P('P12', 'Invalid input is refused with an exception, never answered',
      'Input which violates a documented requirement raises an exception '
      'and returns no number: arrays of unequal length (weights, times, '
      'x-variable, per-event mc, list_times and list_mc, colors), negative '
      'weights, dmc < 0, magnitudes that are not binned to delta_m, unknown '
      'b_parameter, bin_position or plot_technique, no mc or delta_m for '
      'the estimate methods of a catalog, m_ref without b_value, '
      'AMorePositive without b_value, bin widths that must be positive '
      '(get_fmd, bin_to_precision, Weichert, Kijko-Smit), interpolation '
      'power 0, n_m below min_num, offset >= n, fewer than two values, '
      'Lilliefors test with magnitudes below mc, test_magnitude_distribution '
      'and binning_test without magnitudes.',
      ['inputs'],
      'all inputs that violate a documented requirement, whatever the other '
      'arguments are',
      'Tests sample one bad value per guard, where there is a test at all; '
      'a guard with a wrong operator or that is skipped under one option '
      'lets the others through.',
      [A + 'bvalue', A + 'avalue', A + 'estimate_mc.py',
       A + 'b_significant.py', U + 'binning.py', C + 'catalog.py',
       'seismostats/plots'],
      [('_sanity_checks', A + 'bvalue/base.py; ' + A + 'avalue/base.py'),
       ('argument checks', 'public functions')],
      'abstract execution under the violated precondition (facts): the '
      'normal exit must be unreachable',
      SOUND + 'For each requirement the violating fact is assumed and every '
      'configuration run: a normal exit that no raise event dominates is a '
      'violation.' + LIMIT),
    P('P13', 'Every given argument reaches the computation it is meant for',
      'A given argument is never ignored or replaced: the methods of a '
      'catalog use the argument if given and the attribute of the catalog '
      'otherwise (mc, delta_m, b_value, fmd_bin, ...), store what they '
      'return, and hand all options (weights, return flags, keyword '
      'arguments of the estimator, precomputed distances, reference '
      'magnitudes) to the function they wrap, under the right name.',
      ['inputs', 'configurations'],
      'all public functions and methods, all combinations of given/omitted '
      'arguments',
      'Wrappers are tested with defaults; an option dropped on the way gives '
      'a plausible result computed with another value.',
      [C + 'catalog.py', A + 'estimate_mc.py', A + 'b_significant.py',
       A + 'bvalue/utils.py', 'seismostats/plots'],
      [('fallback to attributes', C + 'catalog.py'),
       ('keyword arguments of the estimator', A + 'estimate_mc.py; '
        + A + 'b_significant.py')],
      'value-flow analysis: provenance of call arguments, stored attributes '
      'and results over the abstract runs',
      SOUND + 'For every option and configuration the argument must occur '
      'in a result, effect or condition, and at wrapped calls the parameter '
      'of that name must receive exactly the given value (or the declared '
      'fallback).' + LIMIT),
    P('P14', 'Tables keep their class and metadata through all operations',
      'A catalog, forecast catalog or rate grid keeps its class and its '
      'metadata (mc, delta_m, b_value, a_value, starttime, endtime, '
      'bounding_polygon, depth_min, depth_max, name, n_catalogs, the rate '
      'grid attributes) through every pandas operation and every method '
      'that returns a table: each argument of the constructor is stored '
      'under its name and listed in _metadata; a table that still has the '
      'required columns stays of that class and one without them is a plain '
      'DataFrame; merge and concat of catalogs take the metadata of the first table; strip leaves exactly the required columns of the class; bin_magnitudes sets delta_m to the width used, the '
      'estimate methods set mc, b_value or a_value, and nothing else '
      'changes the metadata of an object.',
      ['inputs', 'histories'],
      'all constructor arguments, all subsets of columns, all methods that '
      'return or change a table',
      'Tests look at one or two attributes after one operation; metadata '
      'lost on a less used path silently falls back to None or a wrong '
      'value in a later estimate.',
      [C + 'catalog.py', C + 'rategrid.py', U + 'binning.py'],
      [('_constructor, _metadata, __finalize__', C + 'catalog.py; '
        + C + 'rategrid.py'), ('bin_magnitudes', C + 'catalog.py')],
      'effect and provenance analysis of attribute writes and of the class '
      'and metadata of returned tables',
      SOUND + 'The constructor, _constructor hook, __finalize__ and all '
      'methods are interpreted with symbolic metadata; the same symbols '
      'must arrive.' + LIMIT),
    P('P15', 'Methods work with just the columns they require, and say so',
      'A method of a catalog or rate grid called on a table that lacks a '
      'column it needs raises an AttributeError before anything is '
      'computed or changed; on a table that has just the required columns '
      'it works without reading any other column; and it does not insist on '
      'a column it has no use for.',
      ['inputs'],
      'all methods, all sets of columns',
      'Test catalogs have all columns, so a requirement that is missing, '
      'too weak or too strong does not show.',
      [C + 'catalog.py', C + 'rategrid.py', 'seismostats/utils'],
      [('require_cols', 'seismostats/utils')],
      'abstract execution over sets of columns, comparing the columns '
      'required with the columns read',
      SOUND + 'Every method is run on tables with each required column '
      'removed and with only the required ones.' + LIMIT),
    P('P16', 'A catalog written to QuakeML reads back with the same values',
      'Reading the result of to_quakeml gives, for every event with '
      'coordinates and time, the same time (to the microsecond), latitude, '
      'longitude, depth, magnitude and magnitude type, and - where the '
      'columns are there - the same event type, evaluation mode, event, '
      'origin and magnitude IDs, uncertainties, quality values, and '
      'secondary magnitudes with uncertainty and ID: zero is written like '
      'any other number, a missing value comes back missing, no event takes '
      'over a value of another one, numbers and times come back as numbers '
      'and times, and include_all_magnitudes, include_quality, '
      'include_uncertainties and include_ids (and drop_uncertainties, '
      'drop_ids) drop exactly the columns they name.',
      ['inputs', 'configurations'],
      'all tables: any subset of the optional columns, any mix of present, '
      'zero and missing values, any magnitude types, any number of events',
      'Tests compare one or two files; a column that is dropped when zero, '
      'rounded, or mapped to the wrong element only shows in tables that '
      'have it.',
      [C + 'catalog.py', C + 'catalog_templates/quakeml.j2',
       'seismostats/io/parser.py'],
      [('to_quakeml', C + 'catalog.py'),
       ('template', C + 'catalog_templates/quakeml.j2'),
       ('QuakeMLHandler, mappings', 'seismostats/io/parser.py')],
      'abstract interpretation of writer, Jinja template and SAX handler on '
      'symbolic cells (value, zero, missing, text)',
      SOUND + 'The template is evaluated abstractly, the document is '
      'tokenised with symbols in place of texts and fed to the abstract '
      'handler; every symbol must arrive in its column and no lossy filter '
      'or format may be applied.' + LIMIT),
    P('P17', 'Texts cannot break the structure of the QuakeML written',
      'Every text of the user (IDs, magnitude types, event type, evaluation '
      'mode, agency, author, names of secondary magnitude types) is escaped '
      'wherever it is inserted into the QuakeML document, so that the '
      'document is well-formed XML for any text.',
      ['inputs'],
      'all texts in the table and the arguments, including those with '
      'markup characters',
      'Test data contain no &, <, > or quotes; one unescaped insertion '
      'gives a file that no reader accepts.',
      [C + 'catalog_templates/quakeml.j2', C + 'catalog.py'],
      [('template', C + 'catalog_templates/quakeml.j2'),
       ('_render_template', C + 'catalog.py')],
      'taint analysis of the template: every insertion point of a text must '
      'pass an escape filter',
      SOUND + 'All insertion points of the abstractly evaluated template '
      'are enumerated with their escaping state, and literal texts with '
      'markup characters must give well-formed XML.' + LIMIT),
    P('P18', 'QuakeML is read completely, event by event, in any layout',
      'The row of an event holds the values of its own preferred origin and '
      'preferred magnitude and of one magnitude per other type, independent '
      'of the order of elements, of optional or unknown elements, of white '
      'space and of how the text is cut into pieces; of several magnitudes '
      'of one type the one with the highest version number and, without '
      'version numbers, the newest creation time is taken; missing elements '
      'leave missing values and never make the reader fail or take values '
      'of another event; an empty input gives no events, and a truncated or '
      'malformed document raises instead of returning what was read so far.',
      ['inputs'],
      'all QuakeML documents: element orders, missing, repeated and unknown '
      'elements, chunk boundaries, truncation points',
      'Test files come from two services with one layout each; chunk '
      'boundaries depend on the buffer of the XML parser.',
      ['seismostats/io/parser.py'],
      [('QuakeMLHandler', 'seismostats/io/parser.py'),
       ('_parse_to_dict and selection', 'seismostats/io/parser.py'),
       ('parse_quakeml*', 'seismostats/io/parser.py')],
      'typestate-style abstract interpretation of the SAX handler over '
      'event streams with symbolic texts',
      SOUND + 'A family of event streams (all orders of the children, '
      'optional and unknown elements, chunking, two events, versions) is '
      'run; each cell must be the expected symbol.' + LIMIT),
    P('P19', 'The FDSN client requests exactly what was asked and loses nothing',
      'FDSNWSEventClient.get_events sends exactly the filters given, under '
      'their FDSN names (a filter of zero is a filter; start and end time '
      'with date and time of day; minmagnitude = min_magnitude - delta_m/2; '
      'additional keyword parameters as they are) and nothing of an earlier '
      'call; the requests of a call in batches carry the same filters, '
      'adjoin one another (offset 1 + i*batch_size, limit batch_size) and '
      'there is one for every batch that holds events and none beyond, the answers to all of them arrive in the catalog in order; the '
      'include_* options reach the parser and the catalog; the catalog has '
      'the requested start and end time; and a failed HTTP request raises '
      'instead of being taken for an empty or smaller catalog.',
      ['inputs', 'histories', 'fault_sequences'],
      'all combinations of filters and options, all batch sizes and '
      'numbers of batches, every request that can fail, repeated calls',
      'Tests mock one or two answers; filters that are dropped, gaps '
      'between batches and swallowed errors need other queries.',
      ['seismostats/catalogs/client.py', 'seismostats/io/parser.py'],
      [('FDSNWSEventClient', 'seismostats/catalogs/client.py')],
      'abstract interpretation of the client with symbolic filters and '
      'modelled requests, comparing each URL and its parameters with the '
      'specification',
      SOUND + 'Each filter is tried given, zero and absent, single and '
      'batched; HTTP failures are injected in the model at every request '
      'call.' + LIMIT),
    P('P20', 'Local coordinates are the projection minus the reference point',
      'CoordinateTransformer.to_local_coords gives the projected (easting, '
      'northing) and the altitude, minus the reference point, and '
      'from_local_coords inverts this: for points and for polygon vertices '
      'alike, for every reference point (given in the local or in another '
      'projection), with or without altitude (zero is an altitude), and '
      'always in the order longitude/easting first. bounding_box_to_polygon '
      'gives the rectangle with the four limits given and '
      'polygon_to_bounding_box the limits (min x, min y, max x, max y) of a '
      'polygon.',
      ['inputs', 'configurations'],
      'all projections, reference points, coordinates and polygons',
      'Tests transform a few points of one region; a sign, axis or altitude '
      'handled differently for polygons or for zero does not show.',
      ['seismostats/utils/coordinates.py'],
      [('CoordinateTransformer', 'seismostats/utils/coordinates.py'),
       ('bounding boxes', 'seismostats/utils/coordinates.py')],
      'value numbering of the returned coordinates with projections as '
      'uninterpreted inverse functions',
      SOUND + 'The value number of every coordinate must equal the one of '
      'the specification.' + LIMIT),
    P('P28', 'Estimates and their errors are the published closed formulas',
      'Of the events they retain, the estimators return the published '
      'formulas, for every sample, weights and option: '
      'b = ln(1 + dm/(mean - mc))/(dm ln 10) (Tinti and Mulargia; '
      '1/((mean - mc) ln 10) for dm = 0; of the differences and dmc for '
      'BPositive and BMorePositive), 1/((mean - mc + dm/2) ln 10) (Utsu), '
      'with weighted means where weights are given; the Shi and Bolt error '
      'ln 10 b^2 sqrt(var/(N - 1)) with N the sum of the weights; '
      'a = log10 N - b (m_ref - mc) - log10(scaling_factor) (classic, and '
      'with the rate of the differences for APositive and AMorePositive); '
      'beta = b ln 10, also for the errors; the beta of Kijko-Smit (the '
      'inverse mean of the inverse estimates of the periods) and the one '
      'that solves the equation of Weichert, both of the events in the years '
      'in which their magnitude is complete; and their errors, a-values and '
      'rates (of Kijko-Smit with every year counted in one period only).',
      ['inputs', 'configurations'],
      'all magnitudes, times, weights, mc, delta_m, dmc, m_ref and '
      'scaling factors',
      'Tests compare a few samples with stored numbers; a factor that is 1 '
      'for them (weights, bin width, reference magnitude, scaling) or a '
      'small bias does not show.',
      ['seismostats/analysis/bvalue/classic.py',
       'seismostats/analysis/bvalue/utils.py',
       'seismostats/analysis/avalue/base.py',
       'seismostats/analysis/bvalue/weichert.py'],
      [('_mle_estimator', 'seismostats/analysis/bvalue/classic.py'),
       ('shi_bolt_confidence', 'seismostats/analysis/bvalue/utils.py'),
       ('_reference_scaling', 'seismostats/analysis/avalue/base.py')],
      'symbolic normal forms (quotients of polynomials over inputs, sums, '
      'logarithms, exponentials, roots) of the returned values',
      SOUND + 'The normal form of every result must equal the one of the '
      'published formula.' + LIMIT),
    P('P31', 'Binning goes to the nearest multiple and counts every event once',
      'bin_to_precision(x, d) is the multiple of d nearest to x, a half going '
      'up (also if float noise puts it up to 1e-12 below the half), for every '
      'd; Catalog.bin_magnitudes stores this for the bin width given or the '
      'one of the catalog. get_fmd counts the binned magnitudes (with their '
      'weights) in bins of width d that are centred at the multiples of d '
      'and reach from the smallest to the largest one, giving the centres or '
      'the left edges; get_cum_fmd gives for every bin the sum of the counts '
      'from this bin on, for d = 0 of the distinct magnitudes.',
      ['inputs', 'configurations'],
      'all magnitudes, bin widths, weights and bin positions',
      'Tests bin a few values; halves, negative magnitudes, other bin widths '
      'and the last bin are where rounding rules differ.',
      ['seismostats/utils/binning.py', 'seismostats/catalogs/catalog.py'],
      [('bin_to_precision', 'seismostats/utils/binning.py'),
       ('get_fmd', 'seismostats/utils/binning.py'),
       ('get_cum_fmd', 'seismostats/utils/binning.py')],
      'symbolic normal forms of the binned values, edges and counts',
      SOUND + 'Binned values must have the normal form '
      'floor(x/d + 1/2 + tiny) d up to a rounding to decimals, the counts '
      'the one of the histogram of these values.' + LIMIT),
    P('P32', 'Simulated, dithered and resampled values follow the stated law',
      'simulate_magnitudes draws n values of the exponential law with rate '
      'beta above mc, truncated at mag_max if given (zero included); '
      'simulate_magnitudes_binned draws them above mc - delta_m/2 (beta = '
      'b ln 10 for a b-value) and bins them; dither_magnitudes draws for '
      'every bin as many values as were observed in it, from the law '
      'truncated to this bin; cdf_discrete_exp is the distribution function '
      'of the binned law; bootstrap_std draws n resamples of the size of the '
      'sample with replacement and returns the (n - 1) standard deviation of '
      'the finite estimates.',
      ['inputs', 'configurations'],
      'all sizes, rates, bounds, bin widths and random draws',
      'Tests of random values compare a mean with a wide tolerance; a wrong '
      'bound, a wrong rate for one parametrisation or a few missing draws '
      'stay below it.',
      ['seismostats/utils/simulate_distributions.py',
       'seismostats/analysis/bvalue/utils.py'],
      [('simulate_magnitudes', 'seismostats/utils/simulate_distributions.py'),
       ('dither_magnitudes', 'seismostats/utils/simulate_distributions.py'),
       ('bootstrap_std', 'seismostats/analysis/bvalue/utils.py')],
      'symbolic normal forms of the returned values over standard random '
      'variables',
      SOUND + 'Every drawn value must equal the inverse of the distribution '
      'function at a standard uniform or exponential variable.' + LIMIT),
    P('P33', 'Autocorrelation, distances and p-values follow their definitions',
      'est_morans_i returns (n-1)/n_p * (d W d)/(d d), with d the deviations '
      'from the given mean or the mean of the valid values and zero for NaN, '
      'n the number of values that are not NaN and n_p the number of '
      'neighbouring pairs of which both are not NaN, every pair counted '
      'once and no value its own neighbour. b_significant_1D '
      'cuts the events at every offset below n_m into windows of n_m events, '
      'leaves out a first or last window with fewer events, gives every '
      'window the largest completeness magnitude of its events and no value '
      'if fewer than min_num events were used, '
      'averages over all n_m ways of cutting, ignoring those without a '
      'value, and returns 1 - Phi((mac - mu)/std) with mu = -1/n and '
      'std = (n_p - 2)/(n_p sqrt(n_p)), times 0.81 if not conservative. '
      'ks_test_gr returns the largest absolute difference between the '
      '(weighted) empirical distribution and the binned Gutenberg-Richter '
      'distribution, and the share of distances of samples simulated with '
      'the same size, b-value, mc and bin width (or of the distances given) '
      'that are at least as large. ks_test_gr_lilliefors returns the p-value '
      'of the Lilliefors test of magnitudes - mc for an exponential law.',
      ['inputs', 'configurations'],
      'all samples, neighbour matrices, estimators and options',
      'Tests compare single numbers with tolerances; equal distances, NaN '
      'among the neighbours, the non-conservative factor or the tail of the '
      'p-value matter only for particular inputs.',
      ['seismostats/analysis/b_significant.py',
       'seismostats/analysis/estimate_mc.py',
       'seismostats/analysis/lilliefors.py'],
      [('est_morans_i', 'seismostats/analysis/b_significant.py'),
       ('b_significant_1D', 'seismostats/analysis/b_significant.py'),
       ('ks_test_gr', 'seismostats/analysis/estimate_mc.py')],
      'symbolic normal forms of the returned values compared with the '
      'published formulas',
      SOUND + 'Matrix products, averages over the cuts and counts of '
      'comparisons are matched by what they are computed from; everything '
      'else is compared as a rational expression.' + LIMIT),
    P('P34', 'Completeness estimates return the magnitude their criterion selects',
      'estimate_mc_maxc returns the centre of the first bin with the largest '
      'count plus the correction factor. estimate_mc_ks tests, for every '
      'magnitude in ascending order, the events above it (minus half a bin) '
      'with the b-value given or estimated there and the distances given for '
      'it, and returns the first magnitude whose p-value is at least '
      'p_value_pass with the b-value used there, None if there is none. '
      'estimate_mc_b_stability compares the b-value at every tested '
      'magnitude with the average of those over the stability range above '
      'it, in units of its standard deviation; it returns the magnitude with '
      'the smallest difference of at most 1 (the first one if it stops) and '
      'its b-value, tests every magnitude for which the range fits into the '
      'data, and reports the values of the tested magnitudes.',
      ['inputs', 'configurations'],
      'all samples, magnitudes to test, thresholds and options',
      'Tests run a few catalogs in which the first passing magnitude is also '
      'the best one and far from the threshold.',
      ['seismostats/analysis/estimate_mc.py'],
      [('estimate_mc_maxc', 'seismostats/analysis/estimate_mc.py'),
       ('estimate_mc_ks', 'seismostats/analysis/estimate_mc.py'),
       ('estimate_mc_b_stability', 'seismostats/analysis/estimate_mc.py')],
      'symbolic values with the estimator and the test replaced by marks '
      'that carry their arguments',
      SOUND + 'The magnitude returned must be the element of the tested '
      'magnitudes at the index the criterion selects, and the b-value the '
      'mark made for that magnitude.' + LIMIT),
    P('P35', 'Next larger events, incompleteness and partitions are as defined',
      'find_next_larger gives for every event the position of the first '
      'later event that is larger by at least dmc - delta_m/2 (dmc is '
      'delta_m if not given), and 0 if there is none. make_more_incomplete '
      'removes exactly the events before which, less than delta_t earlier, '
      'there is a strictly larger event, and keeps all others. '
      'cut_constant_idx cuts the values at offset, offset + n, offset + 2n '
      'and so on (at n first for the offset 0) and returns these positions '
      'and the parts between them. values_from_partitioning returns for '
      'every subset the estimate, its standard deviation and the number of '
      'events used, and NaN, NaN and 0 for an empty one. apply_edwards gives '
      '1.02 + 0.472 M + 0.0491 M^2 for local magnitudes and leaves moment '
      'magnitudes as they are.',
      ['inputs', 'configurations'],
      'all sequences of magnitudes and times, thresholds, offsets, window '
      'lengths, estimators and subsets',
      'Tests compare a few short sequences, in which the first larger event '
      'is the only one, no two events are equal or exactly delta_t apart, '
      'and no subset is empty.',
      ['seismostats/analysis/bvalue/utils.py',
       'seismostats/analysis/b_significant.py',
       'seismostats/analysis/magnitudes.py'],
      [('find_next_larger', 'seismostats/analysis/bvalue/utils.py'),
       ('make_more_incomplete', 'seismostats/analysis/bvalue/utils.py'),
       ('values_from_partitioning', 'seismostats/analysis/b_significant.py')],
      'summaries of the loops: which position is stored where, under which '
      'condition, compared with the definition',
      SOUND + 'A loop is judged by the position and value of each store, '
      'the range of its variables, the condition of the store and whether '
      'the loop ends there; a formulation with other operations is not '
      'judged.' + LIMIT),
    P('P30', 'Declustering follows the published windows, distances and order',
      'The space and time windows equal the published functions of the '
      'magnitude on both sides of and at the breakpoint 6.5, limited to the '
      'cutoff if one is given (zero included). haversine returns the great '
      'circle distance. GardnerKnopoffType1 goes through the events by '
      'decreasing magnitude, ties in order of time; an event that belongs to '
      'no cluster yet becomes a mainshock, and the other events without a '
      'cluster that lie within its own radius, at most its duration later or '
      'fs_time_prop times its duration earlier (ends included), are removed '
      'and belong to its cluster from then on.',
      ['inputs', 'configurations'],
      'all catalogs, windows, cutoffs and foreshock proportions',
      'Tests decluster one catalog; events of equal magnitude, at the end of '
      'a window, at magnitude 6.5 or within two clusters are not in it.',
      ['seismostats/analysis/declustering/dec_gardner_knopoff.py',
       'seismostats/analysis/declustering/distance_time_windows.py',
       'seismostats/analysis/declustering/utils.py'],
      [('GardnerKnopoffType1._decluster',
        'seismostats/analysis/declustering/dec_gardner_knopoff.py'),
       ('GardnerKnopoffWindow._calc',
        'seismostats/analysis/declustering/distance_time_windows.py'),
       ('haversine', 'seismostats/analysis/declustering/utils.py')],
      'piecewise normal forms of the windows; the conjunction of conditions '
      'of the removal mask of the abstract loop',
      SOUND + 'Windows are compared symbolically on every interval and at '
      'every breakpoint the source names; the mask of removed events is '
      'split into conditions, each of which must be one of the four of the '
      'method.' + LIMIT),
    P('P21', 'Results are reproducible',
      'Random numbers are drawn only by simulate_magnitudes, '
      'simulate_magnitudes_binned and dither_magnitudes, from the global '
      'numpy generator so that np.random.seed repeats them, and by '
      'bootstrap_std from a generator made of its random_state. Nothing '
      'reseeds a generator. Only what is documented as simulated may use '
      'them: the K-S distances and p-values (not if ks_ds is given), '
      'p_lilliefors and the bootstrap std of BMorePositive. No other result '
      '(b-, a-value, beta, n, completeness, windows, clusters, tables, '
      'plots) draws a random number, and none depends on the clock, the '
      'environment, object identity, hashes or the iteration order of a set; '
      'random ids are only created for events without one.',
      ['inputs', 'configurations', 'histories'],
      'all entry points under every combination of options, and every '
      'repetition of a call',
      'A test sees one draw; a result which changes with the process, the '
      'time or the state of a generator passes any tolerance-based test.',
      ['seismostats/utils/simulate_distributions.py',
       'seismostats/analysis/bvalue/utils.py', 'seismostats/analysis'],
      [('simulate_magnitudes, dither_magnitudes',
        'seismostats/utils/simulate_distributions.py'),
       ('bootstrap_std', 'seismostats/analysis/bvalue/utils.py'),
       ('ks_test_gr', 'seismostats/analysis/estimate_mc.py'),
       ('Catalog._create_ids', 'seismostats/catalogs/catalog.py')],
      'effect analysis of random, clock and environment reads with call '
      'stacks, and taint of result terms',
      SOUND + 'A draw is attributed to the public functions on its abstract '
      'call stack; a result is tainted if its term contains a draw.' + LIMIT),
    P('P22', 'Row labels of catalogs and columns do not matter',
      'Catalogs and columns (pandas Series) may carry any row labels: those '
      'of a filtered, sorted or concatenated catalog, in any order and with '
      'repetitions. Every function and method treats the rows by their '
      'position: no position is looked up as a label (series[i], .loc), no '
      'label is used as a position (idxmax, .index, iterrows), no values '
      'of different origin are matched by label (arithmetic, column '
      'assignment), and no result other than the returned rows themselves '
      'depends on the labels.',
      ['inputs', 'configurations'],
      'all catalogs and series with any index, all options',
      'Tests use freshly built catalogs whose labels are 0..n-1, for which '
      'labels and positions coincide.',
      ['seismostats/catalogs/catalog.py', 'seismostats/analysis',
       'seismostats/plots', 'seismostats/utils'],
      [('GardnerKnopoffType1._decluster',
        'seismostats/analysis/declustering/dec_gardner_knopoff.py'),
       ('find_next_larger, make_more_incomplete',
        'seismostats/analysis/bvalue/utils.py'),
       ('cat_intersect_polygon', 'seismostats/utils/filtering.py')],
      'abstract interpretation with series arguments; origin analysis of '
      'indices and labels at every lookup',
      SOUND + 'A lookup is judged if the container is known to be a '
      'labelled object and the origin of the index (row position, label of '
      'a frame, label of a renumbered frame) is known.' + LIMIT),
    P('P25', 'Too few events give NaN, not an error or a number',
      'If no event is at or above the completeness magnitude, or no '
      'positive magnitude difference is left, calculate() of every b- and '
      'a-value estimator returns NaN, with or without weights, times and '
      'scaling options; the value, beta, n and standard deviations can be '
      'read afterwards and the estimate and its deviation are NaN. No '
      'minimum, maximum, weighted average, first or last element or '
      'logarithm of a count is taken of an array that may be empty. A '
      'completeness period without events contributes nothing to the '
      'Kijko-Smit estimate and does not make it NaN.',
      ['inputs', 'configurations'],
      'all samples, completeness magnitudes, weights and estimators',
      'Tests try an empty sample for one estimator without weights; which '
      'reductions fail depends on the stage at which nothing is left.',
      ['seismostats/analysis/bvalue', 'seismostats/analysis/avalue'],
      [('BValueEstimator.calculate', 'seismostats/analysis/bvalue/base.py'),
       ('AValueEstimator.calculate', 'seismostats/analysis/avalue/base.py'),
       ('_mle_estimator', 'seismostats/analysis/bvalue/classic.py'),
       ('shi_bolt_confidence', 'seismostats/analysis/bvalue/utils.py'),
       ('estimate_b_kijko_smit',
        'seismostats/analysis/bvalue/kijko_smit.py')],
      'path conditions of partial reductions must imply non-emptiness',
      SOUND + 'A path condition implies that an array has entries if it '
      'compares its length, that of an array of the same rows or of a '
      'selection from it.' + LIMIT),
    P('P26', 'Differences and windows follow the chronological order of the events',
      'Whatever the order in which events are passed: where times are given, '
      'everything that depends on the order of the events (the magnitude and '
      'time differences and the next larger event of the positive and '
      'more-positive a- and b-value estimators, the differences in '
      'make_more_incomplete, the values estimated per subset in '
      'values_from_partitioning, the running sum of the cumulative-count '
      'plot) is computed from the events in ascending order of time. Windows '
      'and partitions (b_significant_1D, plot_b_significant_1D, '
      'plot_b_series_constant_nm) are cut along x_variable, ascending, when '
      'it is given. Otherwise events are used in the order in which they '
      'were passed: never reversed, shuffled or sorted by anything else.',
      ['inputs', 'configurations'],
      'every ordering of the events and every combination of the optional '
      'arguments of the order-dependent functions',
      'Catalogs come newest first as often as oldest first; the wrong order '
      'silently gives another b-value, and test catalogs are mostly sorted.',
      [A + 'bvalue/positive.py', A + 'bvalue/more_positive.py',
       A + 'avalue/positive.py', A + 'avalue/more_positive.py',
       A + 'bvalue/utils.py', A + 'b_significant.py',
       'seismostats/plots/basics.py', 'seismostats/plots/statistical.py'],
      [('argsort of times before differences', A + 'bvalue/positive.py'),
       ('find_next_larger, make_more_incomplete', A + 'bvalue/utils.py'),
       ('srt', A + 'b_significant.py'),
       ('order', 'seismostats/plots/basics.py')],
      'dataflow analysis of the order of event arrays (given, by key, '
      'reversed, random) into order-dependent operations',
      SOUND + 'Arguments of differences, cumulative sums, neighbours and '
      'window slices are traced back to the sorting that produced them.' +
      LIMIT),
    P('P23', 'Rate-grid cells are their six bounds; statistics mix no cells or times',
      'In a rate grid two rows are the same cell exactly when all six bounds '
      'are equal, missing bounds (e.g. no depth) being equal to each other; '
      'cell ids follow this. add_time_index labels the rows with the '
      'grid\'s own start (and end) time and refuses if they are not set. '
      'Concatenating grids keeps every row of every grid and uses end times '
      'when all grids have one; the start and end time of the combined grid '
      'are the earliest start and latest end. calculate_statistics '
      'aggregates over the realizations of a cell at a time step, never '
      'across cells or time steps; no row and no column with values is '
      'dropped first; each column is aggregated with agg_func, the bounds '
      'stay those of the cell, and <metric>_<suffix> is the given function '
      'of that metric. strip keeps exactly the required columns.',
      ['inputs', 'configurations'],
      'all rate grids, with missing bounds or values, one or more index '
      'levels, any aggregation function',
      'Test grids have no missing depth, one value per column and mean as '
      'aggregation; a lost cell or mixed time step shows only elsewhere.',
      ['seismostats/catalogs/rategrid.py'],
      [('_reindex_cell_id, add_time_index, concat, calculate_statistics',
        'seismostats/catalogs/rategrid.py')],
      'abstract interpretation: grouping keys, aggregation map per column '
      'and index levels are evaluated symbolically per column name',
      SOUND + 'Groupings, the aggregation map (evaluated for each bound and '
      'metric), drops before the aggregation, time levels and concatenated '
      'sequences are judged.' + LIMIT),
    P('P24', 'Plots show the documented data, on the Axes they are given',
      'Every plot function which takes ax draws on exactly these Axes and '
      'returns them; without ax it draws on newly created Axes (never on '
      'those of an earlier plot) and returns them. It does not change '
      'pyplot state, clear the Axes, or draw on others. What is drawn is '
      'what is documented: bin centers (or left edges) against the counts '
      'of get_fmd / get_cum_fmd; a Gutenberg-Richter line with slope -b '
      'whose first value is the number (with weights: the summed weights) of '
      'the events above mc; times against magnitudes and time against the '
      'running (weighted) count from the first to the last time of the '
      'catalog as steps that change at the event, divided by its last value '
      'if normalize is True; longitudes as x and '
      'latitudes as y, both marked as geographic coordinates; b-values (or '
      'MAC) with a symmetric band of the normal quantile of the confidence '
      'level (of 1 - p_threshold for the MAC) times the standard deviation, '
      'the b-value of every window of n_m events at its first, middle or '
      'last event as chosen by plot_technique; what cannot be estimated is '
      'left out (NaN). '
      'Dot sizes run from the smallest to the largest given size with the '
      'given interpolation power, for equal magnitudes and with missing '
      'magnitudes too, and reverse_dot_size inverts dot_size.',
      ['inputs', 'configurations'],
      'every combination of the optional arguments of the plot functions, '
      'for symbolic data',
      'The plot tests only look for exceptions or at the Axes type; swapped '
      'coordinates, a wrong band or a second figure would pass.',
      ['seismostats/plots/basics.py', 'seismostats/plots/seismicity.py',
       'seismostats/plots/statistical.py'],
      [('plot_cum_fmd, plot_fmd, plot_cum_count, plot_mags_in_time, dot_size',
        'seismostats/plots/basics.py'),
       ('plot_in_space', 'seismostats/plots/seismicity.py'),
       ('plot_mc_vs_b, plot_b_series_constant_nm, plot_b_significant_1D',
        'seismostats/plots/statistical.py')],
      'abstract interpretation of the drawing calls: receiver Axes, origin '
      'of the data arguments, and algebraic comparison of the drawn formulas',
      SOUND + 'b-values, FMD counts and significance results are opaque '
      'marks whose flow into the drawing calls is followed.' + LIMIT),
]

MORE_NA = []

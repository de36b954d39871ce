"""The properties, in words."""


def P(id, title, statement, over, text, why, files, mech, technique,
      level_note):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[
                    dict(name=n, where=w) for n, w in mech]),
                technique=technique, level_note=level_note)


def N(id, title, statement, over, text, why, files, mech, reason):
    d = P(id, title, statement, over, text, why, files, mech, '', '')
    d['reason'] = reason
    return d


A = 'seismostats/analysis/'
U = 'seismostats/utils/'
C = 'seismostats/catalogs/'
SOUND = 'The analyser (/verif/sa) executes the source abstractly: symbolic '\
    'arguments, every finite option value enumerated, both sides of '\
    'undecided branches joined. '
LIMIT = ' Constructs without a model evaluate to unknown and are counted '\
    'as undetermined, never reported, so a quiet run covers only the '\
    'obligations listed in the evidence.'

PROPS = [
    P('P01', 'Values that belong to the same event are never paired with others',
      'Wherever per-event data are combined (magnitudes, times, weights, '
      'per-event completeness, coordinates, x-variables, plot data), entry i '
      'of one array is combined only with values of the same event in the '
      'others. Any filtering, cutting, sorting, differencing or slicing '
      'applied to one of these arrays is applied to all arrays it is '
      'combined with afterwards, whatever options and optional arguments are '
      'given.',
      ['inputs', 'configurations'],
      'every public function and method, every combination of its finite '
      'options and of present/absent optional arguments, all array contents',
      'The tests use a handful of catalogs, mostly sorted in time, above mc '
      'and free of NaN, for which a forgotten mask or sort changes nothing; '
      'alignment must hold for every mask and permutation and every '
      'combination of optional arguments.',
      [A + 'bvalue/base.py', A + 'avalue/base.py', A + 'estimate_mc.py',
       A + 'b_significant.py', 'seismostats/plots', C + 'catalog.py'],
      [('masks and sort orders applied to all arrays', A + 'bvalue/base.py '
        '_filter_magnitudes; ' + A + 'bvalue/positive.py; '
        + A + 'b_significant.py b_significant_1D'),
       ('weights and times of subsets', A + 'estimate_mc.py'),
       ('NaN filtering', 'seismostats/plots/statistical.py, basics.py')],
      'abstract interpretation with a row-space domain (arrays carry the '
      'rows of the caller they hold; every pairing needs equal spaces)',
      SOUND + 'Each array term has a row space (the caller\'s rows refined '
      'by masks, takes, slices, sorts); every pairing site (arithmetic, '
      'comparison, mask, position, store, weights, zip, column, plot '
      'argument) must combine equal spaces.' + LIMIT),
    P('P02', 'After an estimate, the stored arrays describe the same events',
      'After calculate() every b-value and a-value estimator holds '
      'magnitudes, weights and times (as far as it provides them) that have '
      'one entry per retained event, in the same order. The reported idx are '
      'the positions of exactly these events in the arrays the caller '
      'passed in (for the estimators working on magnitude differences: of '
      'the later event of each retained difference; for the more-positive '
      'ones: of the event whose larger successor was found).',
      ['inputs', 'configurations'],
      'every concrete estimator class, every combination of optional '
      'arguments, all array contents',
      'The tests check idx for a few fixed arrays; the claim is about every '
      'input including unsorted times, events below mc in between, weights '
      'given or not.',
      [A + 'bvalue/base.py', A + 'bvalue/positive.py',
       A + 'bvalue/more_positive.py', A + 'avalue/base.py',
       A + 'avalue/positive.py', A + 'avalue/more_positive.py'],
      [('idx composed with each selection', A + 'bvalue/base.py '
        '_filter_magnitudes; _estimate of the positive estimators')],
      'abstract interpretation with a row-space domain, exit-state rule',
      SOUND + 'The exit spaces of magnitudes, weights, times and idx of '
      'every concrete estimator class (found from the source) are compared.'
      + LIMIT),
    P('P03', 'One completeness rule: an event counts from mc - delta_m/2 on',
      'An event is treated as complete exactly if its magnitude is at least '
      'the completeness magnitude minus half the bin width (inclusive), in '
      'every function that selects or counts events by a completeness '
      'magnitude: estimators, completeness tests, significance tests and '
      'plots. Magnitude differences are likewise kept exactly if they are '
      'at least the difference threshold minus half a bin.',
      ['inputs', 'configurations'],
      'every public entry point taking magnitudes and a completeness '
      'magnitude, all option combinations, all magnitudes and bin widths',
      'The tests use magnitudes well inside or outside the completeness, '
      'never exactly on the bin edges for all methods; a strict inequality '
      'or a missing half bin in one place changes results only for events '
      'in the lowest bin.',
      [A + 'bvalue/base.py', A + 'bvalue/positive.py',
       A + 'bvalue/utils.py', A + 'avalue/base.py', A + 'avalue/positive.py',
       A + 'estimate_mc.py', A + 'b_significant.py',
       'seismostats/plots/basics.py'],
      [('magnitudes >= mc - delta_m / 2', A + 'bvalue/base.py '
        '_filter_magnitudes and every other site found by the analysis')],
      'abstract interpretation; comparisons normalised to a linear form and '
      'matched against the half-bin rule',
      SOUND + 'Every comparison of magnitudes with a completeness magnitude '
      'that selects or counts is normalised to magnitudes - mc + c*delta_m '
      '>= 0 and must have c = 1/2 and be inclusive.' + LIMIT),
    P('P04', 'Data passed by the caller are never modified',
      'No public function or method modifies the arrays, lists, data frames '
      'or catalogs passed to it (or the catalog it is called on), neither '
      'values, nor order, columns, index or attributes. The only exceptions '
      'are inplace=True, and the documented storing of a new estimate '
      '(completeness magnitude, b-value, a-value) on the catalog the '
      'estimation method is called on.',
      ['inputs', 'configurations', 'histories'],
      'every public entry point, every option combination, all arguments, '
      'views and shared buffers included',
      'Tests compare results, hardly ever the inputs after the call, and '
      'aliasing needs particular dtypes or contiguous inputs to show.',
      [A, U, C, 'seismostats/plots', 'seismostats/io'],
      [('copies before in-place work', C + 'catalog.py @require_cols '
        'methods, _create_copy; ' + A + 'bvalue/base.py calculate')],
      'interprocedural alias/effect analysis by abstract interpretation '
      '(alias roots)',
      SOUND + 'Objects reachable from an argument carry it as a root '
      'through views, columns, slices and asarray; any store, in-place '
      'operator, mutating method, out= or attribute write on a rooted '
      'object is reported.' + LIMIT),
    P('P05', 'Calls leave no trace in shared state',
      'The result of a call depends only on its arguments and on the '
      'documented options: no call changes module-level data, class '
      'attributes, default arguments or the state of a shared object, and '
      'none changes process-wide settings of the interpreter, numpy, pandas '
      'or matplotlib. Only the dedicated option functions change options.',
      ['histories', 'configurations'],
      'every sequence of calls of public entry points under every option '
      'combination',
      'Each test runs few calls; leaks show only for particular sequences '
      'of calls.',
      [A, U, C, 'seismostats/plots', 'seismostats/io'],
      [('no module-level mutable state outside the option registry',
        U + '_config.py')],
      'interprocedural effect analysis by abstract interpretation',
      SOUND + 'Every write whose target was created at import time, is a '
      'class, module, closure or default argument, and every call of a '
      'process-wide setter is reported.' + LIMIT),
    P('P06', 'The warnings option only controls warnings',
      'Turning the package\'s warnings option off silences every warning the '
      'package itself issues and changes nothing else. Return values, '
      'stored results, exceptions raised and drawn data are identical with '
      'the option on and off.',
      ['inputs', 'configurations'],
      'every public entry point, every option combination, all inputs',
      'The tests hardly ever run one input under both settings, and never '
      'all functions.',
      [U + '_config.py', A + 'bvalue/base.py', A + 'avalue/base.py',
       A + 'estimate_mc.py', A + 'lilliefors.py', A + 'b_significant.py'],
      [('if get_option("warnings")', 'all warning sites')],
      'relational abstract interpretation (two runs, terms must be equal)',
      SOUND + 'Each configuration is interpreted with the option on and off '
      'and the outcomes are compared as terms; with the option off no '
      'warning call may be reachable.' + LIMIT),
    P('P07', 'An explicit zero is a value, not a missing value',
      'Optional numeric arguments and optional numeric catalog attributes '
      '(completeness magnitude, bin width where the catalog provides '
      'another, thresholds, reference magnitude, cut-offs, query limits) '
      'count as absent only if they are None. Passing 0 has the effect of '
      'the number 0: it is neither replaced by a default or by the '
      'attribute of the catalog nor skipped.',
      ['inputs', 'configurations'],
      'every optional numeric parameter of every public entry point, all '
      'combinations of the other options',
      'Tests hardly ever pass 0 for these parameters, as ordinary values '
      'are positive.',
      [A, C + 'catalog.py', C + 'client.py', 'seismostats/plots',
       U + 'simulate_distributions.py'],
      [('is None tests', 'every optional parameter')],
      'relational abstract interpretation (absent / zero / arbitrary) and '
      'truth-value lint on typed terms',
      SOUND + 'Per optional number three runs are compared; a zero that is '
      'indistinguishable from absent while other values are not is '
      'reported, and so are branches on the truth value of a number that '
      'may be None.' + LIMIT),
    P('P08', 'Continuous magnitudes (bin width 0) work in every estimator',
      'Wherever the bin width of the magnitudes is a parameter of an '
      'estimator, a significance test, a simulation or a plot, the width 0 '
      'means continuous magnitudes and gives a regular result. It never '
      'leads to a division by zero, a logarithm of zero or an exception '
      'that a positive bin width would not cause.',
      ['inputs', 'configurations'],
      'every estimator class and every entry point with a bin width, all '
      'option combinations; functions that are about bins '
      '(binning itself, bin-wise completeness tests) excepted',
      'Few tests run a bin width of 0, and not for all combinations of '
      'method and options.',
      [A + 'bvalue/base.py', A + 'bvalue/classic.py',
       A + 'bvalue/more_positive.py', U + 'simulate_distributions.py',
       U + 'binning.py'],
      [('if delta_m > 0', A + 'bvalue/classic.py, '
        + A + 'bvalue/more_positive.py')],
      'relational abstract interpretation (width 0 against positive width)',
      SOUND + 'Each configuration is interpreted with bin width 0 and '
      'positive; divisions by the constant zero, log(0), and exceptions '
      'that only the width 0 reaches are reported.' + LIMIT),
]

NOT_APPLICABLE = [
    N('N01', 'Estimates are maximum-likelihood estimates',
      'For magnitudes drawn from a (binned, truncated above mc) exponential '
      'distribution, the b-value estimates of all methods and their '
      'standard errors are consistent with the true value.',
      ['inputs'], 'all samples', 'a statistical statement over samples',
      [A + 'bvalue'], [('estimators', A + 'bvalue')],
      'statistical accuracy is a statement about numerical values over a '
      'distribution of inputs; no static argument in reach bounds it (the '
      'structural part - units, alignment, completeness - is P01-P03)'),
    N('N02', 'Binning returns the nearest multiple and is idempotent',
      'Binning to a precision returns the nearest multiple of the bin width '
      '(ties away from zero) and binning twice changes nothing.',
      ['inputs'], 'all floats and widths', 'floating-point rounding',
      [U + 'binning.py'], [('bin_to_precision', U + 'binning.py')],
      'depends on floating-point rounding of runtime values'),
    N('N03', 'Frequency-magnitude counts add up',
      'The counts of the non-cumulative frequency-magnitude distribution '
      'sum to the number (or total weight) of events and the cumulative '
      'distribution is its reverse cumulative sum.',
      ['inputs'], 'all magnitudes', 'depends on histogram edges in floats',
      [U + 'binning.py'], [('get_fmd', U + 'binning.py')],
      'whether every event falls inside the histogram edges is a '
      'floating-point question about runtime values'),
    N('N04', 'Declustering clusters form a partition with one mainshock each',
      'Every event is assigned to at most one mainshock, and no event that '
      'lies within the window of a larger event is labelled a mainshock.',
      ['inputs'], 'all catalogs', 'data-dependent loops over clusters',
      [A + 'declustering'], [('cluster loop', A + 'declustering')],
      'the invariant is over the contents of integer label arrays updated '
      'in a data-dependent loop; no abstract domain in reach tracks it'),
    N('N05', 'p-values are probabilities and are calibrated',
      'Kolmogorov-Smirnov and Moran\'s I p-values lie in [0, 1] and are '
      'uniform under the null hypothesis.',
      ['inputs'], 'all inputs', 'statistical',
      [A + 'estimate_mc.py', A + 'b_significant.py'],
      [('ks_test_gr', A + 'estimate_mc.py')],
      'a statement about the distribution of simulated values'),
    N('N06', 'Batched downloads return each event of the query once',
      'Splitting a query into batches returns the events of the unsplit '
      'query, each exactly once, for every server-side count.',
      ['inputs', 'fault_sequences'], 'all servers answers',
      'depends on the answers of a remote server',
      [C + 'client.py'], [('bisection', C + 'client.py')],
      'the bisection ends on counts the server returns and requests '
      'overlap in closed intervals; whether events repeat depends on '
      'server data'),
]

#!/usr/bin/env python3
"""Source of properties.jsonl (one readable place to edit). Run: python3 tools/mkprops.py"""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=observe, hook_needed=hook)))


CH = 'python/getdist/chains.py'
MC = 'python/getdist/mcsamples.py'
TY = 'python/getdist/types.py'
INI = 'python/getdist/inifile.py'
PN = 'python/getdist/paramnames.py'
PP = 'python/getdist/parampriors.py'
BJ = 'python/paramgrid/batchjob.py'
BA = 'python/paramgrid/batchjob_args.py'
GC = 'python/paramgrid/gridconfig.py'
JQ = 'python/paramgrid/jobqueue.py'

prop('C01', 'Sample rows stay intact under every selection operation',
     "Every operation that selects samples or columns (filtering by boolean mask or index list, removing burn-in, "
     "thinning, removing zero or low weight samples, deleting fixed parameters, adding a derived parameter, combining "
     "chains, appending another set's samples of the common parameters, copying) leaves exactly the rows that operation "
     "specifies, in their original order. Each surviving row "
     "keeps its own weight, log-likelihood and parameter values together, and each column keeps its own parameter "
     "name, by which it is found. An operation that fails with an error leaves the samples as they were.",
     ['inputs', 'histories'],
     "all sample sets (any rows, integer or float weights, with or without log-likelihoods, one or several chains) "
     "and all sequences of the operations",
     "The tests filter/thin one fixed random sample set once and look at a mean or a plot; they never compare rows, "
     "nor compose operations.",
     [CH, MC],
     [('WeightedSamples.setSamples / filter / thin / removeBurn / deleteZeros / setMinWeightRatio / deleteFixedParams', CH),
      ('Chains.filter / makeSingle / addDerived / removeBurnFraction', CH), ('MCSamples.copy / addDerived', MC)],
     ['samples, weights, loglikes arrays and parameter names of the object after each call'],
     [('rows', 'list of (weight, loglike, params)', CH)])

prop('C02', 'Combined chains can always be separated again into the right chains',
     "However a set of chains is combined and then filtered, thinned, burn-in trimmed, reweighted or extended with "
     "derived parameters, asking for the separate chains returns, for each original chain, exactly the surviving rows "
     "that came from it, in order and with their current weights and log-likelihoods. The separated chains concatenated "
     "are always exactly the combined samples, and between-chain statistics (R-1) are computed from that separation.",
     ['inputs', 'histories'],
     "any number and lengths of chains (including chains that become empty) and all operation sequences",
     "No test ever separates combined chains after modifying them.",
     [CH, MC],
     [('Chains.makeSingle / getSeparateChains / filter / weighted_thin / removeBurnFraction / getGelmanRubin', CH)],
     ['getSeparateChains(), getGelmanRubin()'],
     [('chain boundaries', 'which rows belong to which chain', CH)])

prop('C03', 'Thinning keeps exactly every k-th unit of sample weight',
     "Thinning integer-weighted samples by k keeps, in order, the sample that contains unit number k, 2k, 3k, ... of "
     "cumulative weight (a sample containing several of them is kept that many times, as repeated unit-weight rows or "
     "as one row with that integer weight); besides these only the very first sample may additionally be kept once. "
     "Thinning with weights that preserve separate chains acts on each chain independently, and non-integer weights or "
     "factors are rejected without modifying the samples. A thinned file contains exactly those rows with unit weight "
     "(reweighted when it is also cooled). Random single samples are picked in order, with unit weight and with chance weight over the "
     "product of the largest weight and the given factor (so the heaviest are always picked for factor one).",
     ['inputs'],
     "all integer weight vectors (including large weights, weights above and below k, zero weights) and all factors k>=1",
     "Tests thin once with one factor and unit-like weights; the fast and the general code path are chosen by data.",
     [CH, MC],
     [('thin_indices_single_samples / thin_indices_and_weights / thin / weighted_thin', CH)],
     ['thin_indices(), thin(), weighted_thin() results'])

prop('C04', 'Reported statistics always describe the current samples',
     "After any history of queries and modifications, every statistic a sample set reports - means, variances, "
     "covariances, correlations, normalization, marginalized statistics and limits, likelihood statistics, best-fit "
     "sample, 1D densities, covariance-matrix export - equals what a freshly created sample set with the same current "
     "rows and settings reports. Mean, variance and covariance are the exactly weighted ones.",
     ['histories', 'inputs'],
     "all interleavings of statistic queries with filter, thinning, burn removal, reweighting, cooling, column "
     "addition/deletion, settings changes",
     "Tests query each object once, mostly without subsequent modification; stale-cache bugs need query-modify-query.",
     [CH, MC],
     [('_weightsChanged invalidation of cached means/vars/cov', CH),
      ('MCSamples.updateBaseStatistics / needs_update / getMargeStats / getLikeStats / get1DDensity', MC)],
     ['getMeans, getVars, getCov, cov, corr, mean, std, getMargeStats, getLikeStats, getCovMat, get1DDensity, '
      'getParamBestFitDict'],
     [('cached statistics', 'means, vars, fullcov, correlation, densities, margeStats, likeStats', CH + ', ' + MC)])

prop('C05', 'Reweighting multiplies relative weights by exactly the likelihood ratio',
     "Adding log-likelihoods or cooling changes every sample's relative weight by exactly exp(-(change of its "
     "log-likelihood)) and its stored log-likelihood by exactly that change, for all samples, with no change to "
     "parameter values, row order or caller-supplied arrays. Hence reweighting by a then b equals reweighting by a+b, "
     "and constant offsets change no relative weight.",
     ['inputs', 'histories'],
     "all weight and log-likelihood vectors, all added log-likelihoods and cooling factors, any sequence",
     "No test reweights with a non-trivial history or checks relative weights.",
     [CH, MC],
     [('reweightAddingLogLikes / cool', CH), ('settings: cool', MC)],
     ['weights and loglikes after the call'])

prop('C06', 'Confidence limits are weighted quantiles of the samples',
     "A sample confidence limit is the smallest sample value at which the cumulative weight reaches the requested "
     "fraction (upper limits symmetrically with one minus the fraction), so it is always an actual sample value, "
     "monotonic in the fraction, and unchanged by re-ordering rows or rescaling all weights. N-dimensional confidence "
     "bounds of the likelihood statistics are exactly the minimum and maximum parameter values over the most likely "
     "samples whose cumulative weight stays below the requested fraction (at least the best-fit sample), and the "
     "best-fit sample is the one with the lowest -log(likelihood).",
     ['inputs'],
     "all weighted sample sets including ties, unsorted input, sub-ranges and repeated use of prepared data; all "
     "fractions in (0,1)",
     "Tests check one Gaussian example to a tolerance.",
     [CH, MC, TY],
     [('confidence / twoTailLimits / initParamConfidenceData', CH), ('_setLikeStats / getLikeStats', MC),
      ('LikeStats', TY)],
     ['confidence(), twoTailLimits(), getLikeStats()'])

prop('C07', 'Loading chains through the cache equals loading them afresh',
     "Loading a chain root with caching enabled always returns the same rows, names, ranges and settings as loading the "
     "same files with the same arguments without the cache, whatever was loaded, cached or changed earlier. In "
     "particular changed, added or removed chain files, changed settings, changed burn-in, and damaged or foreign cache "
     "files never lead to stale or mixed results (a file counts as changed if its modification time or size differs), "
     "and no load modifies the chain files or the caller's arguments.",
     ['histories', 'configurations', 'fault_sequences'],
     "all histories of loads with different settings, rewrites/additions/removals of chain files, cache deletions and "
     "corruptions",
     "The test loads one root once or twice with identical settings.",
     [MC, 'python/getdist/_base.py', CH],
     [('loadMCSamples cache validity and settings update', MC), ('last_modified', CH)],
     ['loadMCSamples() result: samples, weights, loglikes, paramNames, ranges, settings attributes'],
     [('cache file', 'pickled MCSamples per root', MC)])

prop('C08', 'A chain root resolves to exactly its own chain files',
     "The chain files of a root are exactly the files named root (or root plus separator and a chain number) with the "
     "extension, restricted to the requested first/last/included/excluded chain numbers - never files of another root "
     "whose name merely extends, contains or resembles it. Searching a directory tree for a root finds a directory "
     "holding such files whenever one exists and returns only roots that really have chain files (an unnumbered file or "
     "one numbered 0 or 1). All chains in the subfolders of a chain directory are listed under distinct names, each "
     "resolving back to its own chain; another name resolves only to the single chain having the same parts.",
     ['inputs', 'configurations'],
     "all directory trees and root names (with dots, digits, underscores, regular-expression characters)",
     "Tests use one directory with one root.",
     [CH, 'python/getdist/chain_grid.py'],
     [('chainFiles / hasChainFiles / findChainFileRoot', CH), ('ChainDirGrid', 'python/getdist/chain_grid.py')],
     ['chainFiles(), findChainFileRoot(), load_supported_grid()/ChainDirGrid name lists and resolveRoot'])

prop('C09', 'Saved samples reload to the same samples and metadata',
     "Saving samples as text (combined or as separate chains) to a new root and loading them back with no burn-in removal gives the "
     "same rows with weights and log-likelihoods to the stored precision, the same parameter names in the same order "
     "with labels and derived flags, the same parameter bounds (two-sided, one-sided, fixed), the same separation "
     "into chains, and the same label and burn-in-removed status.",
     ['inputs', 'histories'],
     "all sample sets, names, labels, bounds and any history of operations before saving",
     "The test saves one fixed chain and re-reads some numbers.",
     [CH, MC, PN, PP],
     [('saveAsText / saveChainsAsText / saveTextMetadata', CH + ', ' + MC), ('ParamNames.saveAsText/loadFromFile', PN),
      ('ParamBounds.saveToFile/loadFromFile', PP)],
     ['files written; reloaded MCSamples'])

prop('C10', 'Burn-in is removed exactly once, and only the leading part of each chain',
     "When chains are loaded the requested burn-in (a row count, or a fraction of its rows rounded to a whole row, for "
     "each chain separately) is removed from the start of every chain exactly once, whichever way it is requested, and "
     "nothing is removed when none is requested or when the chains are marked as already burn-in-removed or belong to "
     "an importance-sampled run. Copying a grid with burn removal "
     "removes exactly that leading fraction (to a whole row) from each chain file, marks the copy, and never trims "
     "files already marked or importance-sampled.",
     ['inputs', 'configurations', 'histories'],
     "all chain lengths, ignore_rows given as setting, argument or properties-file flag, all sequences of "
     "save/copy/load",
     "Tests use one fixed ignore_rows with one chain.",
     [MC, CH, 'python/copyGridFiles.py', 'python/runGridGetdist.py'],
     [('MCSamples.readChains / ignore_rows / burn_removed', MC), ('removeBurn', CH),
      ('burn-in removal while copying', 'python/copyGridFiles.py')],
     ['rows loaded; files and .properties.ini written'])

prop('C11', 'Settings files resolve with documented include and default precedence',
     "Reading a settings file gives each key the value from the file itself if it is set there, otherwise from the "
     "files it includes, otherwise from its default files in order of appearance, at any nesting depth and with paths "
     "relative to the including file; a key set twice at non-default level or a missing file is an error, comments and "
     "blank lines are ignored, nothing after END is used, and the settings remain named after the main file. Typed look-ups return the stored value converted or the supplied "
     "default, and raise an error for a missing required key, or a malformed value.",
     ['inputs', 'configurations'],
     "all include/default graphs, key/value contents and look-ups",
     "Only one default ini file is ever read by the tests.",
     [INI, 'python/getdist/analysis_defaults.ini'],
     [('IniFile.readFile / defaultValue handling', INI), ('typed getters', INI)],
     ['IniFile(...).params, string/int/float/bool/list getters'])

prop('C12', 'Settings written to file read back to the same settings',
     "Saving a settings object and reading the file back gives the same key/value mapping (values, read order, "
     "including settings of any type changed in memory: texts, numbers, booleans and lists). Setting or deleting keys "
     "and replacing tags changes exactly the named ones of that object, and a settings object is independent of the "
     "dictionary it was made from.",
     ['inputs', 'histories'],
     "all key/value maps, all sequences of set / delete / replace / save / read",
     "Not tested at all.",
     [INI],
     [('IniFile.saveFile / fileLines / replaceTags / delete_keys', INI)],
     ['file content re-read with IniFile'])

prop('C13', 'Parameter names resolve to the right parameter',
     "Looking up a name returns the parameter with exactly that name, or else one that lists it (directly or through a "
     "supplied table of renames) as an alias, and otherwise reports an error or nothing as requested; wildcard patterns "
     "return exactly the matching parameters in order without duplicates. Adding, deleting, renaming and filtering "
     "parameters, and saving and reloading the list, preserve order, labels, comments, derived flags and the index of "
     "every other parameter.",
     ['inputs', 'histories'],
     "all name lists, alias sets and edit sequences",
     "Tests only use simple distinct names.",
     [PN],
     [('ParamList.parWithName / parsWithNames / numberOfName / getRenames / updateRenames / mergeRenames', PN),
      ('ParamNames.loadFromFile / saveAsText', PN)],
     ['look-up results; written .paramnames files'])

prop('C14', 'Parameter bounds keep their meaning through reading, setting and merging',
     "Each parameter's lower and upper bound is exactly the value last set or read for that end (N, None or infinity "
     "giving no value, equal values meaning fixed); bounds of other parameters and of other objects are unaffected, "
     "and parameters without an entry are unbounded. Bounds are read from range files and Cobaya parameter files, saved "
     "bounds re-read identically (to the stored digits), and limit settings override file bounds for exactly the named "
     "parameter of the samples.",
     ['inputs', 'histories'],
     "all sequences of set, fix, read, save, settings overrides",
     "Tests use ranges set once at construction.",
     [PP, MC],
     [('ParamBounds', PP), ('setRanges / limits[...] settings', MC)],
     ['getLower/getUpper/fixedValue/file content/MCSamples.ranges'])

prop('C15', 'Covariance matrices stay indexed by parameter name',
     "Loading, saving, plotting, rescaling and merging named covariance matrices keeps every entry attached to its pair "
     "of parameter names: merged matrices contain all parameters of the first, then the new ones of the second, with "
     "entries of the first taking precedence and zero correlation between parameters that never occur together, and "
     "exporting samples gives the sample covariance of exactly the requested or non-derived parameters in order.",
     ['inputs'],
     "all pairs of named symmetric matrices and parameter orders",
     "Not tested at all.",
     ['python/getdist/covmat.py', 'python/getdist/covcomb.py', 'python/getdist/covscale.py', MC],
     [('CovMat.loadFromFile/saveToFile/rescaleParameter/mergeCovmatWhereNew', 'python/getdist/covmat.py'),
      ('getCovMat / writeCovMatrix', MC)],
     ['CovMat.matrix and paramNames; saved files'])

prop('C16', 'The job index always matches the jobs submitted and not yet removed',
     "After any sequence of submitting, querying and deleting jobs the grid's job index lists exactly the jobs "
     "submitted and not since deleted, each reachable by its job id, and the queue status of a run "
     "is reported from exactly those entries joined with what the batch system currently says. A run that is queued or "
     "running is recognised as such, deleting cancels exactly the named jobs, and one submission of several runs "
     "produces exactly one command for each of them with the requested resources.",
     ['histories', 'inputs', 'fault_sequences'],
     "all sequences of submissions, deletions, status queries and batch-system states",
     "Job submission is not tested at all.",
     [JQ, 'python/runbatch.py', 'python/deleteJobs.py', 'python/runningJobs.py'],
     [('JobIndex.addJob / delId / deleteJobNames / loadJobIndex / saveJobIndex / submitJob / queue_job_details', JQ)],
     ['reloaded job index; queue_job_names; commands given to the batch system'],
     [('job index file', 'pickled list of submitted jobs per grid', JQ)])

prop('C17', 'A crash never loses or corrupts the job index',
     "If the process dies (or the disk fails) at any point while the job index is being updated, the index that is next "
     "loaded is either the complete previous one or the complete new one.",
     ['crash_points', 'fault_sequences', 'histories'],
     "every file-system call of every index update, for any history of updates",
     "Tests never interrupt a write.",
     [JQ],
     [('saveJobIndex writes a temporary file and moves it into place', JQ)],
     ['loadJobIndex after the interruption'])

prop('C18', 'A grid contains exactly the requested runs, each under one unique name',
     "A grid built from its settings contains exactly one run for every requested combination of parameter set and "
     "dataset (minus skipped and group-specific ones) plus the requested importance and minimisation runs, each with a "
     "name that determines its parameter set and data independent of listing order; no two items share a name or output "
     "location, and a combination that is itself run is not also importance-sampled. Every item is found again by its "
     "name, also when its data or parameter tags are given in a different order.",
     ['inputs', 'configurations'],
     "all grid specifications (groups, parameter and dataset lists, importance runs and filters)",
     "Grid construction is not tested at all.",
     [BJ, GC],
     [('batchJob.makeItems / jobItem / dataSet / makeImportance / resolveName', BJ)],
     ['batch.items(), name, chainRoot, resolveName, normed_name'])

prop('C19', 'Every generated run file carries exactly its own settings',
     "Creating a grid writes for every run a settings file which, when read, has that run's output root, its base "
     "parameters with each varied parameter given its prior range and every other one its fixed value, and the grid, "
     "group, dataset and common settings with the more specific one winning. Writing the grid twice, or reading a grid "
     "back from its directory, gives the same runs and files.",
     ['inputs', 'configurations', 'histories'],
     "all grid specifications and defaults",
     "Grid construction is not tested at all.",
     [GC, BJ],
     [('makeGrid', GC), ('readobject / batchJob.save', BJ)],
     ['files in <grid>/iniFiles; readobject(grid)'])

prop('C20', 'Run selection picks exactly the runs that match filters and status',
     "Selecting items of a grid by name, parameters, data, exclusions, convergence or existence returns exactly the "
     "items satisfying every given criterion, and batch submission starts exactly those selected runs that are not "
     "excluded by their current state (already started, finished, queued, converged or lacking what they need). A run "
     "that should be skipped is never submitted and an eligible one is never missed.",
     ['inputs', 'configurations', 'histories'],
     "all grids, argument combinations and states of output files and queue",
     "Not tested at all.",
     [BA, BJ, 'python/runbatch.py'],
     [('batchArgs.filteredBatchItems / itemMatchesFilters', BA),
      ('jobItem.chainExists/chainFinished/wantCheckpointContinue/notRunning/hasConvergeBetterThan', BJ),
      ('submission loop', 'python/runbatch.py')],
     ['items yielded; jobs submitted'])

prop('C21', 'Grid maintenance scripts touch only the files they should',
     "Cleaning up, copying, renaming parameters in, and extracting files from a grid affect exactly the files that "
     "belong to the selected items and match the requested criteria: clean-up deletes nothing unless confirmed, renaming "
     "changes exactly the named parameter and leaves every value intact, and copying never alters the source and "
     "produces exactly the requested file types.",
     ['inputs', 'configurations'],
     "all grids, file sets and script options",
     "Scripts are not tested at all.",
     ['python/cleanup.py', 'python/copyGridFiles.py', 'python/renameParam.py', 'python/extractDistFiles.py'],
     [('file matching and deletion', 'python/cleanup.py'), ('copy', 'python/copyGridFiles.py'),
      ('rename', 'python/renameParam.py')],
     ['directory tree before and after'])

prop('C22', 'Printed numbers and tables faithfully represent the results',
     "A formatted value with error or limits differs from the actual number by at most half of its last printed digit. "
     "Errors carry the promised significant figures (the formatter's setting, by default two; one figure suffices for an "
     "error of at least 2 that is more than about a tenth of a value of 20 or more), and the value is shown at least down "
     "to the last figure of its upper error and with no more decimals than its errors. One-sided and absent limits are "
     "shown as such and never as two-sided errors. A results table lists every parameter of the results (or of the given list) exactly once, "
     "in the order of the results, under its label, next to its own limits for every column.",
     ['inputs'],
     "all values, errors, limits, sign combinations, numbers of parameters, columns, limits and result sets",
     "The test compares one table's text.",
     [TY],
     [('NumberFormatter / MargeStats.texValues / ResultTable', TY)],
     ['formatted strings; tableTex output'])

prop('C23', 'Statistics files read back to the statistics that were written',
     "Marginalized statistics, the summary values of likelihood statistics, and convergence files written to disk read "
     "back to the same parameters, values, limits, limit types (two-tail, upper, lower, none) and labels, at the precision of "
     "the file; a best-fit file's varied, fixed and derived parameters, likelihood and chi-squared contributions are each "
     "attributed to the right name and kind, also when added to marginalized statistics or returned as a dictionary of "
     "parameters (of the maximum posterior, the maximum likelihood, or a sample).",
     ['inputs'],
     "all parameter sets, limits, contour lists and file contents",
     "One best-fit and one margestats file are used.",
     [TY, MC],
     [('MargeStats / LikeStats / BestFit / ConvergeStats loadFromFile / __str__', TY)],
     ['re-read objects'])

prop('C26', 'Density grids enclose the stated probability and belong to the right axes',
     "For every gridded density: normalizing makes its integral (edge points counting half per edge) or its maximum one; "
     "evaluating it at a grid point gives the value of that point (x first), also after normalizing; the level of a contour "
     "splits the cells so that those denser than it hold at most the requested fraction and together with the next denser "
     "ones at least that; and equal-density limits of a one-dimensional density hold the requested fraction between two "
     "points of equal density, or end at the edge of the range, flagged as such, exactly where the density there is higher. "
     "Densities of samples have the first parameter along x, the requested contours, and are confined to the hard bounds.",
     ['inputs'],
     "all grids, shapes, fractions, edge settings and sets of samples",
     "Tests compare a few smooth densities with loose tolerances.",
     ['python/getdist/densities.py', MC],
     [('getContourLevels / Density1D / Density2D', 'python/getdist/densities.py'), ('get1DDensity / get2DDensityGridData', MC)],
     ['levels, limits, interpolated values, normalized grids'])

prop('C27', 'Plots show the requested samples and parameters in the right panels',
     "Every panel of one- and two-dimensional, rectangle, triangle and coloured scatter plots shows, for each requested set "
     "of samples that has the parameters (possibly under a given other name), that set's own density - or its rows, coloured "
     "by their third parameter - of exactly that panel's parameters, the first along x, and nothing else. Panels follow the "
     "order of the request. Axes carry the labels of the first set, have one range where they are shared, and cover what is "
     "drawn within the hard bounds, or are exactly the requested limits; markers are at the requested values; titles give the "
     "limits of the first set. The legend lists the sets drawn in the requested order, each with the colour and style it has "
     "in every panel. None of this depends on what was plotted before, and arguments of the caller are not changed.",
     ['inputs', 'histories'],
     "all sample sets, parameters, kinds of plots and options, and all sequences of plots made with one plotter",
     "The test makes some plots and never looks at what is in them.",
     ['python/getdist/plots.py'],
     [('plots_1d / plots_2d / rectangle_plot / triangle_plot / plots_3d / add_legend', 'python/getdist/plots.py')],
     ['lines, contours, points, labels, limits, markers, titles and legends of the figure'])

prop('C28', 'Samples asked for by name come from the right place with the right settings',
     "Samples a plotter loads by name come from the first of its locations (directories with their subdirectories, chain "
     "grids) that holds the chain, with the settings kept with that location (a directory's getdist.ini, a grid's options, "
     "the run's own settings before the grid's) and never those of other locations; settings of the request, of the analysis "
     "and the defaults come after them, or before them where chain settings have no priority, and burn-in recorded as "
     "removed is not removed again. A name gives the same object until it is removed, reset or loaded again, and densities "
     "and points plotted under it are those of the samples it now stands for. Settings of the caller are not changed.",
     ['inputs', 'histories'],
     "all arrangements of locations, settings files and priorities, and all sequences of loading, adding, removing, resetting and plotting",
     "The tests load one chain from one directory with no settings file.",
     ['python/getdist/plots.py', 'python/getdist/chain_grid.py', 'python/getdist/mcsamples.py'],
     [('MCSampleAnalysis.samples_for_root / add_chain_dir / reset / remove_root / add_root', 'python/getdist/plots.py'),
      ('get_chain_root_files / ChainDirGrid', 'python/getdist/chain_grid.py')],
     ['samples, settings and densities of samples loaded by name'])

prop('C29', 'The getdist command uses the chains asked for and writes what was asked for',
     "An analysis run with the getdist command uses exactly the chain files of the root that are numbered in the requested "
     "range and not excluded, without the rows to ignore (given in the command, else in the settings file, else the "
     "default; none if burn-in was removed before), cooled as requested. Covariance, correlations, means, errors, "
     "limits, best sample and thinned samples in the files written are those of these samples, for the parameters that vary, "
     "in order. Exactly the files asked for are written, under the output directory and name, and chains are left unchanged. "
     "The plot scripts run and show the parameters, pairs, triples and triangles asked for, with patterns expanded and "
     "missing or constant parameters left out.",
     ['inputs'],
     "all chain roots, settings files and command options",
     "No test runs the command with a settings file or reads what it writes.",
     ['python/getdist/command_line.py', 'python/getdist/mcsamples.py'],
     [('getdist_script', 'python/getdist/command_line.py'),
      ('getConvergeTests / writeCovMatrix / writeThinData / _writeScriptPlots', 'python/getdist/mcsamples.py')],
     ['.covmat, .corr, .margestats, .likestats, _thin.txt and plot scripts, and the figures they make'])

prop('C24', 'Kernel density estimates are accurate',
     "Estimated one and two dimensional densities converge to the sampled distribution, with bandwidth, boundary and "
     "multiplicative bias corrections that keep them unbiased near hard prior edges.",
     ['inputs'], "all sampled distributions", "Tests compare a handful of mixtures with loose tolerances.",
     [MC, 'python/getdist/kde_bandwidth.py', 'python/getdist/convolve.py'],
     [('get1DDensityGridData / get2DDensityGridData / bandwidth selection', MC)], ['density grids'])

prop('C25', 'The sampler generates chains distributed as the posterior',
     "The Fortran Metropolis, fast-slow dragging and nested samplers leave the posterior invariant, resume from "
     "checkpoints without bias, and write chains whose weights equal the time spent at each point.",
     ['histories', 'crash_points', 'schedules'], "all posteriors, proposals, MPI schedules and checkpoint histories",
     "The Fortran code cannot be built here and has no tests in the suite.",
     ['source/MCMC.f90', 'source/ImportanceSampling.f90', 'source/samples.f90'],
     [('sampling loop', 'source/MCMC.f90')], ['chain files'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))

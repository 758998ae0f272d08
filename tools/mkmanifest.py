#!/usr/bin/env python3
"""Source of MANIFEST.json. Run: python3 tools/mkmanifest.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = 'TLA+ specification checked by TLC; its behaviours are replayed into the real code and the recorded executions validated against the specification by TLC'
TRUST = ' Trusted: TLC, the recording driver, numpy.'
CLAIMED = {
    'C01': 'All operation sequences of the model (bounded rows, chains, depth) are replayed into WeightedSamples, Chains and MCSamples, plus seeded random longer histories; every observation must be one the specification allows.',
    'C02': 'As C01 with the chain structure (separate, combined, separated again) and Gelman-Rubin statistics observed after each step.',
    'C03': 'Every small integer weight vector and thin factor (exhaustive in the model), plus random larger ones, thinned by the real code and compared with the unit-counting specification.',
    'C04': 'Every (query, modification, query) combination, plus random longer histories: the reported value must be that of the current version of the samples. Basic statistics are compared with exact rational values; the others with a freshly created object.',
    'C05': 'Powers of two make reweighting exact in integers: all small histories and random ones compared exactly; wide dynamic ranges compared by exponent.',
    'C07': 'All load/write/remove/damage/race histories of the model to depth 4 (sampled in the quick tier), plus random longer ones, over pairs of settings, kinds of side files, spellings of the root and job items; each load must return what the specification says a load without cache returns.',
    'C08': 'All file names over a small alphabet against all small roots, plus random directory trees: each look-up result must be the specified one.',
    'C09': 'All save/modify/load histories of the model (sampled in the quick tier) and random longer ones, over names, labels, bounds, chain structure and file layouts (CosmoMC and Cobaya): the reloaded object must be the one the specification reloads.',
    'C10': 'As C09 with every way to request burn-in removal (setting, ini file, argument, getdist script, job item, properties file, Cobaya post-processing) and with grid copies.',
    'C11': 'All sets of three small files that include or default each other (sampled in the quick tier) and random larger ones: the settings read must be those of the declarative precedence rule (which TLC checks against the reading algorithm); typed look-ups compared with the specified text conversion.',
    'C12': 'All set/delete/replace/save/load histories of two settings objects to depth 4 (sampled in the quick tier) and random longer ones; every object is compared after every step.',
    'C13': 'All edit histories of the model (sampled in the quick tier) and random longer ones on ParamNames, each followed by look-ups by name, alias and wildcard; every list and every result is compared with the specification.',
    'C14': 'All set/save/load/replace/limit histories of the model (sampled in the quick tier) and random longer ones over bounds objects, samples made from files, arrays and Cobaya info, and settings; the bounds of every object are compared after every step.',
    'C15': 'All pairs of small matrices with all overlaps and orders of names under merge, rescale, save and load (sampled in the quick tier), random larger ones, the covcomb and covscale scripts, plots, and exports of samples with exact integer covariances.',
    'C16': 'All histories of submissions, job starts and ends, queries and deletions of the model to depth 4 (sampled in the quick tier) and random longer ones, with stand-ins for the commands of three batch systems, through the API and the runbatch, deleteJobs and runningJobs scripts: job index, cancelled jobs, listed jobs and the commands and resources of every job script are compared with the specification.',
    'C17': 'Index updates are interrupted at every step of the interpreter and in the middle of every write (process killed, or write failing), small and large indexes, alone and in histories of the model and random ones; the index then loaded must be the old or the new one, and further updates must work.',
    'C18': 'All small settings of grids (groups, parameters, data, importance runs, filters, skipped runs; sampled in the quick tier) and random larger ones are made into grids by the real code, read back from cache and from their configuration, and queried; items, names, paths and results of look-ups are compared with the specification.',
    'C19': 'As C18, with options, default files, priors and covariance matrices: every settings file written is read back and compared with the content the specification derives from the settings of the grid.',
    'C20': 'All lives of the runs of a small grid to depth 5 (submitted, started, stopped, continued, finished, analysed; sampled in the quick tier) and random states on disk of random grids, with random criteria: items selected by the API and by listGrid, checkConverge, runGridGetdist and runbatch are compared with the specification (batch system and analysis program are stand-ins).',
    'C21': 'All small histories of clean-up, copying, renaming and extraction on a small grid (sampled in the quick tier) and random larger ones run the real scripts in scratch directories; the whole directory tree (names and contents) after every step is compared with the specification.',
    'C06': 'Every weighted sample set of up to three rows (sampled in the quick tier) and random larger ones, with fractions that are hit exactly and not: limits, two-tail limits, prepared data, sub-ranges, N-dimensional bounds and best-fit sample from the code are compared with the exact values of the specification.',
    'C22': 'All small decimal values and errors of the model (sampled in the quick tier) and random ones over sizes, signs, exponents and significant figures are formatted by the code, alone, in LaTeX snippets and in whole tables; the printed text is parsed into exact decimals and each must be one the specification allows.',
    'C23': 'All small histories of making, writing, reading and combining results (sampled in the quick tier) and random larger ones, for statistics made directly and from samples, best-fit files in the format of the minimizer, and convergence files: every object is compared with the specification after every step.',
    'C27': 'Requests of the model (all small combinations of kinds, sets and parameters; sampled in the quick tier) and random sessions of several plots with one plotter are drawn by the real code; every line, contour and point set in the figure is identified by comparison with fresh copies of the samples, and panels, ranges, labels, markers, titles and legends are judged by the specification.',
    'C28': 'Arrangements and histories of the model and random ones (directories, subdirectories, trees, grids, settings files, priorities; loading, adding, removing, resetting, plotting) are made on disk and played with the real analysis object; which chain, which settings, which object and which densities come back is judged by the specification.',
    'C29': 'Requests of the model (options in all small combinations, sampled in the quick tier) and random ones are run through the real command on chains written for them; the samples used are identified from the covariance and means in the files written, everything else written is compared with samples made directly from those chains, and the plot scripts are run and their panels read.',
    'C26': 'All small grids of one and two dimensions (sampled in the quick tier) and random larger ones of up to three: levels, normalization, interpolated values and limits from the code are judged by the specification (exactly in integers where the quantity is exact, else within a stated tolerance), and densities of samples by orientation, bounds and enclosed fractions.',
}
NA = {}
PENDING = 'not built yet: no check decides this property so far'
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA['C24'] = ('How close the kernel density estimates and the contours drawn from them are to the true distribution is a '
             'real-analysis accuracy question with no state or transitions; TLC has integers only, so a specification '
             'could not decide it without being replaced by a numerical oracle.')
NA['C25'] = ('The Fortran sampler cannot be built here (no Fortran compiler, no CAMB, no MPI), so no execution of it can be '
             'bound to a specification.')
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMED:
        note = CLAIMED[i]
        checks.append(dict(property=i, quick_cmd='./check ' + i, thorough_cmd='VERIF_TIER=thorough ./check ' + i,
                           technique=TV, level='model_checking', level_note=note + TRUST))
    else:
        na.append(dict(property=i, reason=NA.get(i, PENDING)))
m = dict(version=1, setup_cmd='/bin/bash tools/setup.sh',
         hooks=dict(guard='NONE', enable='no hooks are needed: the checks observe the public interface of the code', source_commits=[]),
         checks=checks, not_applicable=na,
         notes='TLA+ with TLC. Every check is ./check <id>; see DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and the registry."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.registry import PROPS
from sa.program import Program

TEXT = {}


def T(pid, title, statement, over, text, why, na=None):
    assert len(title) <= 80, (pid, len(title))
    TEXT[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, na=na)


I, P, H, CF, S, CP, FS = ('inputs', 'programs', 'histories', 'configurations', 'schedules', 'crash_points', 'fault_sequences')

T('C01', 'Normalisation: one reference product of ±1, everything scaled together',
  "After normalisation every dataset's single reference product has amount 1 or, if it was negative, -1, and every exchange of the dataset (amount together with its uncertainty) has been multiplied by the same factor, the reciprocal of the absolute value of the original reference amount. "
  'A dataset with no or several reference products, or a reference amount of zero, is refused with an error and never silently rescaled. '
  'Every shipped configuration normalises all datasets after linking.',
  [I, CF], 'every dataset: any number and order of exchanges, any sign and size of amounts, any uncertainty distribution, any shipped configuration',
  'tests normalise two or three hand-written datasets; they cannot show that no exchange, sign or uncertainty field is left out for all datasets')
T('C02', 'Allocation partitions burdens: shares are value ratios, each input scaled once',
  "Economic (revenue) allocation yields one dataset per allocatable product, each keeping that product as reference product, holding the other products only as zero-amount dropped products, and every other exchange multiplied by exactly that product's share, before normalisation to one unit of product; shares are revenue fractions, redistributed by true value among products that have one, and add up to one. "
  'Combined production gives one recalculated dataset per non-zero reference product with the other reference products set to zero, and datasets of the same activity and products are merged by adding their exchanges; waste treatment leaves the whole burden with the treatment service and gives its allocatable byproducts none, recycling turns the treated material into an input of opposite sign before economic allocation. '
  'No exchange is lost, duplicated or scaled twice on any path.',
  [I], 'every multi-output dataset, any number of products, properties, prices, byproduct classifications and zero amounts',
  'the tests use small fixed datasets with two or three products; lost, duplicated or twice-scaled exchanges depend on the combination of products, classes and properties')
T('C03', 'Allocation method: total, documented decision order, exactly one handler',
  'Every dataset is labelled with exactly one of the documented allocation methods, chosen by the documented order of conditions (single product, market group, constrained or unconstrained market, combined production variants, waste treatment or recycling, otherwise economic). '
  'In the pipeline each label other than those needing no allocation has exactly one handler, which sees all and only the datasets with that label and refuses datasets that do not fulfil its preconditions, and the label is removed afterwards.',
  [I, CF], 'every dataset: all combinations of activity type, number and sign of reference products, byproduct classes and parameterisation',
  'tests sample one dataset per branch; the decision table has far more combinations and order matters where branches overlap')
T('C04', 'Derived datasets share no mutable state with their source or each other',
  'When one dataset is turned into several (allocation, subdivision, merged byproducts, recycled content, constrained markets) or an exchange is split over suppliers or consumers, each result owns its data: changing an exchange, uncertainty or property of one result never changes another result or the original. '
  'No transformation keeps data of one run in process-wide mutable state that a later run would see.',
  [I, H], 'every dataset and every sequence of later in-place transformations, including repeated runs in one process',
  'aliasing only shows after a later in-place step on a particular combination; tests look at one transformation at a time')
T('C05', 'Uncertainty moves with its amount and stays well-formed',
  'Scaling an exchange multiplies its amount by the factor and adapts its uncertainty (bounds and mode scale linearly and stay ordered, variance of a normal distribution with the square of the factor, lognormal location follows the new absolute amount with sign kept apart, zero factors drop the uncertainty). '
  'Repair changes only what the documented conditions call ill-formed, dropping distributions that cannot be kept and re-centring the others on the amount; unsupported types raise an error. '
  'Pedigree scores map to the published variances and are adjusted in time by the documented steps, and total variance is basic plus pedigree variance.',
  [I], 'every distribution type, sign of amount, factor, missing parameter and pedigree score',
  'tests check selected distributions with single numeric examples; sign, zero, missing-field and ordering cases multiply')
T('C06', 'Supplier shares follow production volume and add up to the demand',
  'When a market or market group consumes from several suppliers, each supplier with a non-zero volume gets exactly one input, with the fraction of the demanded amount equal to its production volume divided by the total volume of all suppliers of that market; a single supplier without volume gets everything. '
  "When an exchange of a consumer is split over several markets, the split is by the markets' production volumes, the parts (with their uncertainty) replace the original exchange and add up to it.",
  [I], 'every set of suppliers and consumers with any volumes, including zero total volume (documented equal shares or error) and several exchanges per dataset',
  'tests use two or three suppliers; missing a supplier, double-counting or a wrong denominator appears for other supplier sets')
T('C07', 'Linking respects geography: supplier territory lies inside the consumer\'s',
  "A market takes as suppliers exactly those activities of its product whose territory lies inside the market's own, rest-of-world being resolved to what the named regions of the same group leave over; overlapping or duplicated territories are refused. "
  "An unlinked input is shared among the largest non-overlapping markets or market groups inside the consumer's territory, or, if there are none, goes to the smallest market or group that contains the consumer; market groups are supplied in the same way. "
  'A global dataset becomes rest-of-world exactly when regional datasets of the same activity and products exist, market groups excepted.',
  [I, CF], 'every set of regional, global and rest-of-world datasets and every topology',
  'tests draw small topologies; which branch applies depends on combinations of locations that tests do not enumerate')
T('C08', 'Every remaining link points to an existing producer of that product',
  'Every technosphere input that linking leaves in the result carries the code of a dataset of the model that produces that flow: the linked supplier, market or market group, or for hard links the only dataset with that identifier and reference product; ambiguous or missing targets are reported or refused, never guessed. '
  'Exchanges that could not be linked are reported and deleted, all of them and no others; every reference product carries the code of its own dataset.',
  [I, H], 'every dataset collection, including missing, duplicated or several matching producers',
  'dangling links depend on the relation between many datasets; tests contain a handful')
T('C09', 'Dataset identity is unique and stable',
  'The code of a dataset is a function of activity name, reference product, unit, location and start and end date only, independent of letter case, so that it is the same in every run and in every process. '
  'Collections in which two datasets would get the same code, or have the same identifier, are refused rather than one overwriting the other; each exchange keeps its original identifier.',
  [I, H], 'every collection of datasets and every run',
  'collisions and instabilities need specific pairs of datasets or runs; tests hash a few')
T('C10', 'Production volumes are accounted for exactly once',
  "Volumes delivered through hard links are subtracted from the producing exchange exactly once (consuming amount times the consumer's ratio of production volume to reference amount, self-consumption ignored), with the volume before the subtraction preserved, and the volume of a rest-of-world dataset is the global volume minus the original volumes of the regional datasets, never below zero. "
  "A market's volume is the sum of its suppliers' volumes minus its own hard-linked volume, not below zero, propagated to the market groups it supplies; allocatable byproducts and datasets without a volume get the documented derived volume.",
  [I], 'every network of producers, hard links, regions and byproducts, any volumes',
  'double subtraction or a missed producer depends on the network; tests have two or three nodes')
T('C11', 'Formula cleaning keeps the meaning of every formula',
  'Rewriting formulas into Python syntax (conditionals, powers, percent signs, letter case, references to other values by identifier, reserved words, known bad strings) handles every occurrence in every place where a formula or variable may stand in a dataset and keeps its meaning; a name that merely contains a reserved word is left alone. '
  'Variables are renamed consistently in definitions and uses, and formulas that remain unparsable are removed and reported while their amounts are kept.',
  [I], 'every formula string and every place a formula may stand (exchange, production volume, property, parameter)',
  'formulas are arbitrary strings; the tests hold a list of examples')
T('C12', 'Recalculation is complete: every parameterised amount follows its formula',
  'Recalculating a dataset evaluates all named parameters and then writes back every amount that has a formula or variable, in exchanges, production volumes, properties and parameters alike, and afterwards repairs every uncertainty to match the new amounts; division by zero gives zero. '
  'A dataset whose parameters cannot be evaluated is reported and does not stop the run, duplicate variable names in a dataset are refused, and after deparameterisation no formula or variable is left.',
  [I], 'every parameterised dataset: any formulas, order of definitions and places of variables',
  'tests recalculate a few datasets; a place that is skipped shows only for formulas standing there')
T('C13', 'The report reflects what happened: every log line is accounted for',
  'Each transformation of a run leaves a start and an end line with its index, name, description, table layout and the number of datasets before and after, in order, and every line of the log ends up in the report section of its transformation. '
  'Every row written to a tabular log has as many cells as the declared table has columns, log lines are JSON, and each run writes only to its own log files.',
  [I, H, CF], 'every run: any transformations, datasets, log messages and sequence of runs in one process',
  'row and header drift shows only when that particular message is logged; the tests rarely look at the log')
T('C14', 'The cache never returns stale, foreign or partial data',
  'Cached extraction results are used only when the cache file for exactly this input directory and format version exists and is newer than the input directory and every visible file in it; otherwise, or when caching is switched off, the data is extracted again, and with caching on the result is stored. '
  'Different input directories never share a cache file, and a crash while writing leaves no file that a later run would accept.',
  [I, H, CP], 'every history of edits to the input directory, runs, versions and crashes during writing',
  'staleness needs a history of edits and runs; crashes and colliding names are not exercised by the tests')
T('C15', 'Files are written and deleted only inside the directories made for the run',
  'Each run creates its own new, uniquely named output directory and writes results, logs and report only below it; input data and existing results are never overwritten, and names are made safe before they become file names. '
  "The only directories ever deleted are a report's own assets folder before it is rewritten, the run's own output directory when the user interrupts that run, and, on explicit cleanup, report directories older than a week inside the managed output directory.",
  [I, FS, H], 'every run, command line, name of a dataset or transformation, and error',
  'the tests do not run whole models against a file system with other content, nor fail in the middle of them')
T('C16', 'Transformations run once each, in order, each on its predecessor\'s output',
  'Running a system model applies the functions of the chosen configuration in order, nested lists and collections flattened, each exactly once and each to the result of the one before; the returned and saved result is that of the last one. '
  'Intermediate results are saved exactly for the indices which the save strategy (default interval, every n-th, start:stop:step range including the end) selects, and following a dataset saves the matching datasets after every step at any nesting depth; invalid configurations and strategies are refused.',
  [I, CF, P, FS], 'every configuration (nested to any depth), save strategy, followed dataset and failing transformation',
  'the tests run small configurations; nesting, ranges and failures combine')
T('C17', 'Wrapping keeps a transformation\'s meaning: filters and collections',
  'Applying a wrapped per-dataset function replaces each dataset accepted by its filter by the datasets the function returns for it, in place, and passes all others through untouched, losing or duplicating none. '
  'A single-dataset function used on a list is mapped over it, a collection behaves as the ordered sequence of its flattened functions, and the name, description and table layout reported for a function are those declared on it, also through wrappers and partial application.',
  [I, P], 'every function, filter and input list, including empty results and lists of results',
  'tests use one or two wrapped functions; filters and result kinds combine')
T('C18', 'Extraction is faithful to the source file and produces valid datasets',
  'Reading an ecospold2 file keeps every exchange, parameter, property, production volume, uncertainty, pedigree score and classification with its value, unit, identifiers, names and formulas from the corresponding field of the file, leaves absent optional fields absent, and translates every coded value to the documented word. '
  'The directory extractor returns one dataset for each dataset file, whether run in parallel or serially, and the closed vocabularies and fields of the internal schema equal what extraction produces.',
  [I, S], 'every well-formed ecospold2 file and every number of workers',
  'tests extract a few fixture files; optional fields and codes combine freely')
T('C19', 'Consequential model: constrained markets, technology levels and byproducts',
  'In consequential markets only the suppliers of the best technology level present stay suppliers, in the documented order of levels, undefined being switched to current and reported. '
  "For each conditional exchange of a constrained market, that exchange and the target's former reference product become inputs of opposite sign, and the target's matching input becomes its reference product with opposite sign (formulas flipped too); only hard links to activities that became constrained are removed, and byproducts without any producer of their own are refused.",
  [I], 'every set of suppliers, technology levels, constrained markets and byproducts',
  'tests contain single markets; mixtures of levels and constrained markets are not enumerated')
T('C20', 'Export to Brightway2 is complete and keeps identities and amounts',
  'Each dataset becomes exactly one activity with its code, location, names, unit and reference product, and each exchange with non-zero amount is exported exactly once to the matching kind (production, technosphere, biosphere with its compartments, byproduct as negative technosphere) with its amount and the key of the linked activity in the target database. '
  'Only refinery gas without a link is left out; an existing database is never overwritten and a database with unlinked exchanges is not written.',
  [I], 'every model result',
  'there are hardly any tests of the export')
T('C21', 'Topology answers are exact set relations with the special world regions handled',
  'Containment, intersection and overlap of locations agree with the sets of faces of those locations, after removing the faces of locations to be subtracted, with the location itself included exactly as asked; rest of world is everything not covered by the given locations, is contained in the global location, and without resolution contains and is contained in nothing else. '
  'Orderings list each requested location once, larger before smaller with ties broken by name; queries never change the topology or depend on earlier queries.',
  [I, H], 'every location (including unknown ones), every subset and every sequence of queries',
  'the tests ask for single locations; the relations must hold for all pairs')
T('C22', 'Validation steps refuse every invalid collection and change nothing',
  'Every validation step raises its documented error for each collection that breaks its rule, whatever the position of the offending dataset, accepts all others, and returns the data unchanged. '
  'The error classes the package declares all derive from its one base error, and none of them is a subclass of another, so each can be caught alone.',
  [I], 'every collection of datasets, offending element at any position, all combinations of rules',
  'tests give one offending example per rule, mostly as the only or first element')
T('C23', 'Only what a rule names is removed, and every removal is reported',
  'Exchanges, links, formulas and datasets are removed only when the documented condition for their removal holds (zero amount or reference product hard links, consequential flag, unlinked inputs, zero-volume rest-of-world or listed global markets, less modern suppliers, unparsable formulas), and then always; everything else is kept with its content. '
  'Removals of exchanges, links and datasets are written to the report log with the dataset and flow concerned.',
  [I], 'every dataset collection, including several removable items in sequence',
  'removing while iterating or a widened condition only shows on particular neighbouring items')
T('C24', 'The same input gives the same result, in the same order',
  'Results do not depend on hash seeds, directory listing order, number of workers, current time or random numbers: the order of datasets, exchanges, suppliers and report rows is a function of the input alone. '
  'Dataset codes, cache keys and file names derived from data are the same in every process; only the run identifier is random.',
  [I, S, H], 'every run of the same input on any machine, with any hash seed and number of workers',
  'nondeterminism is invisible within one test process')
T('C25', 'Waste and recycled content: products renamed, flipped and supplied consistently',
  'Recyclable byproducts are renamed with the recycled content label and for each such product exactly one burden-free global supplying dataset is created, which inputs of that name are linked to; the label is removed again from flows and reference products after linking. '
  'Byproducts that are not allocatable become inputs of opposite sign (amount and formula) without a byproduct classification; all other exchanges keep theirs, and negative non-waste markets are turned positive consistently in all exchanges concerned.',
  [I], 'every dataset and byproduct classification, several byproducts per dataset',
  'tests contain one byproduct at a time; agreement between producer and consumer naming is a relation over all datasets')

# ---- not decided by static analysis -------------------------------------------------
T('C26', 'Shares and splits sum to the demand within floating point tolerance',
  'For every market the sum of the computed supplier amounts equals the demanded amount up to a relative error of 1e-6, and allocation factors sum to one within the same tolerance, for all magnitudes of volumes.',
  [I], 'all volumes representable as floating point numbers', 'tests compare a few numbers with a tolerance',
  na='A bound on accumulated rounding for unbounded numbers of suppliers of arbitrary magnitude is a numerical property; the static comparison treats amounts as reals (the algebraic part is C02 and C06) and gives no error bound.')
T('C27', 'Evaluated formulas give the amounts the source software computed',
  'For every dataset, recalculation with unchanged parameters reproduces the amounts stored in the source file.',
  [I], 'all shipped datasets and formulas', 'the real database is not available to the tests',
  na='The result of evaluating an arbitrary formula string depends on the data and on the third-party evaluator; nothing in the source determines it. The structural part (what is evaluated and where results are written) is C11 and C12.')
T('C28', 'Parallel extraction survives slow, failing or killed workers',
  'If a worker process raises, hangs or is killed, extraction either returns the complete set of datasets or raises; it never hangs or returns a partial list.',
  [S, FS], 'all interleavings and worker failures', 'tests use few files and no failing worker',
  na='Liveness and failure behaviour belong to the process pool of the standard library and the operating system; the repository contains only the call. That the collected list is complete and ordered when the pool delivers is part of C18 and C24.')
T('C29', 'Formula rewriting terminates for every input string',
  'The rewriting of nested conditionals and powers terminates for every string, including malformed ones.',
  [I], 'all strings', 'tests hold well-formed examples',
  na='Termination of the string rewriting loops depends on what regular expressions match in arbitrary text; no ranking argument over the syntax is in reach of the value-graph analysis, which treats the regular-expression engine as opaque.')
T('C30', 'The shipped topology agrees with real-world geography',
  'Face lists and compatibility labels in the shipped data describe the real containment of regions.',
  [I], 'all locations in the shipped data file', 'there is no independent oracle in the repository',
  na='The truth of the data file cannot be decided from source; only its use (C07, C21) can.')

TECH = ('static analysis: abstract interpretation of the source into canonical value graphs (guarded symbolic heap, MTBDD/GVN normal form) '
        'compared with reviewed per-function specifications, plus whole-program syntax-tree rules')
NOTE = ('Decides, without running the code, that each anchored function computes the specified results, heap updates, raises, report rows and external effects for all inputs. '
        'Assumes real arithmetic, opaque libraries, no aliasing between distinct input collections; functions with constructs outside the modelled language are reported as undecided, not as violations.')


def main():
    repo = Program('/repo')
    props, checks, na = [], [], []
    for pid, t in sorted(TEXT.items()):
        files, mech = [], []
        if pid in PROPS:
            sp = PROPS[pid]
            for x in sp['contracts'] + sp['ordered'] + sp['values']:
                mod = x.split(':')[0]
                f = os.path.relpath(repo.modules[mod].path, '/repo') if mod in repo.modules else None
                if f and f not in files:
                    files.append(f)
                mech.append({'name': x.split(':')[1], 'where': f})
            for r in sp['rules']:
                mech.append({'name': 'whole-program rule: ' + r, 'where': 'ocelot/'})
        else:
            assert t['na'], pid
            files = {'C26': ['ocelot/transformations/locations/markets.py', 'ocelot/transformations/cutoff/economic.py'],
                     'C27': ['ocelot/transformations/parameterization/recalculation.py'],
                     'C28': ['ocelot/io/extract_ecospold2.py'],
                     'C29': ['ocelot/transformations/parameterization/python_compatibility.py'],
                     'C30': ['ocelot/transformations/locations/_topology.py']}[pid]
            mech = [{'name': 'see files', 'where': f} for f in files]
        props.append({'id': pid, 'title': t['title'], 'statement': t['statement'],
                      'quantifier': {'over': t['over'], 'text': t['text']}, 'why_tests_cant': t['why'],
                      'anchors': {'files': files or ['ocelot/'], 'mechanism': mech}})
        if t['na']:
            na.append({'property': pid, 'reason': t['na']})
        else:
            checks.append({'property': pid, 'quick_cmd': 'python3 check.py %s --tier quick' % pid,
                           'thorough_cmd': 'python3 check.py %s --tier thorough' % pid,
                           'technique': TECH, 'level': 'other', 'level_note': NOTE})
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in props:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    man = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa check.py', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks. The checks parse /repo/ocelot with the standard library only and never import or run it.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write('\n')


main()

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the texts live here, one call each)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
rows = []
def P(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count('. ') <= 3, id
    rows.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': files,
                    'state': [dict(name=a, meaning=b, where=c) for a, b, c in state],
                    'mechanism': [dict(name=a, where=b) for a, b in mech],
                    'observe_at': observe, 'hook_needed': hook}})

CFG = 'nimble/core/configuration.py'
LOG = 'nimble/core/logger/session_logger.py'
CRE = 'nimble/core/_createHelpers.py'
RND = 'nimble/random/randomness.py'
TUN = 'nimble/core/tune.py'
UNI = 'nimble/core/interfaces/universal_interface.py'
LRN = 'nimble/core/learn.py'
BAS = 'nimble/core/data/base.py'

P('C01', 'Saved settings survive crashes and failed writes',
  'If the process dies, or the disk refuses an operation, at any moment while settings are being saved, the configuration file '
  'afterwards still holds, complete and readable, either exactly what it held before that save or exactly what that save was to make it hold. '
  'A save that fails reports the failure and keeps the unsaved changes in force for the session, so that saving again makes them permanent; '
  'settings changed only for the session never reach the file.',
  ['crash_points', 'fault_sequences', 'histories'],
  'Every point of every save (file operations and in-memory steps) at which the process can die or the disk can fail, over arbitrary histories of set/save/restart.',
  'The tests save into a working file system and never interrupt or fail a save.',
  [CFG], [('saveChanges', CFG), ('loadSettings', CFG)],
  ['.nimble.ini after each crash/fault', 'nimble.settings.get in the same and the next session'],
  [('configuration file', 'durable option values', CFG), ('session changes', 'values set but not saved', CFG)])

P('C02', 'Settings act as a layered store: session over file, saves are exact',
  'Within a session the value most recently set for an option is the value read back and the function registered for that option is told of every change of its value; reading never changes anything. '
  'Saving one option, one section or everything makes exactly those session changes permanent and no others, and a later session starts with exactly the saved values. '
  'A value one session has saved is not undone when another session later saves different options.',
  ['histories', 'schedules', 'inputs'],
  'All histories of set/get/save/setDefault/hook calls with arbitrary option values, over successive and overlapping sessions in any interleaving.',
  'The tests check a few hand-written sequences in a single session.',
  [CFG, LOG], [('SessionConfiguration.get/set/saveChanges/hook', CFG), ('cleanThenReInitLoc/Name', LOG)],
  ['nimble.settings.get()', 'the configuration file', 'calls of registered hooks', 'log file in use'])

P('C03', 'A log entry is durable once its call returns; crashes never damage the log',
  'Every logged action whose call has returned is in the log file exactly once, after everything logged before it and with its session\'s number, no matter when the process is killed afterwards. '
  'A crash or disk error while logging leaves a log that opens, holds every earlier entry unchanged, and holds the interrupted entry either whole or not at all. '
  'A session that starts logging after another has logged gets a higher session number, and all entries of one session carry one number.',
  ['crash_points', 'fault_sequences', 'histories'],
  'Every crash point (database file operations and lines of logging code) and disk/database error during logging, over sequences of sessions logging arbitrary contents.',
  'The tests log into a healthy database from one process that never dies.',
  [LOG], [('SessionLogger.setup/log/cleanup', LOG)],
  ['rows of the log database after each crash', 'nimble.showLog output'],
  [('logger table', 'entry, timestamp, session number, type, info', LOG)])

P('C04', 'One log entry per user-visible operation, none when logging is off',
  'While logging is on (by the call\'s argument or, failing that, by the default setting), each completed user call of a loggable operation adds exactly one entry of its kind, however many operations it performs internally, except that hyperparameter tuning and deep logging add their own documented entries. '
  'When logging is off for a call it adds nothing. '
  'A call that raises, at any point, adds no entry for itself and does not change how later calls are logged. Whether a call is logged changes neither what it returns nor what it raises.',
  ['histories', 'fault_sequences', 'inputs'],
  'All sequences of data, learner and random operations with every combination of the log argument and settings, and exceptions or interrupts raised inside user callbacks and learners at any call.',
  'The tests call each operation once, successfully, from a clean state; nested and failed-then-continued histories are not covered.',
  [LOG, UNI, LRN, 'nimble/core/data/_dataHelpers.py', BAS],
  [('prepLog / handleLogging / loggingEnabled', LOG)],
  ['rows added to the log by each call'])

P('C05', 'Sessions sharing one log never lose, mix or duplicate entries',
  'When several sessions log to the same file at the same time, in any interleaving and with lock waits of any length short of the database\'s own limit, every entry of every session whose call returned is present exactly once and each session\'s entries are in its own order. '
  'Sessions that both log never share a session number. '
  'If a session cannot get the lock in time its call fails with an error, its entry is absent, and its later entries are logged normally.',
  ['schedules', 'fault_sequences'],
  'All interleavings of the database steps of 2-4 sessions, with simulated lock holds and timeouts.',
  'All tests run one session against a private log.',
  [LOG], [('SessionLogger.setup/log', LOG)], ['rows of the shared log database'],
  [('session number', 'chosen from the maximum in the table when a session sets up', LOG)])

P('C06', 'Showing the log reports exactly the entries asked for',
  'For any log history, showing the log reports the entries (in order, each once) that satisfy all given limits: sessions-ago range (at least the least and fewer than the most sessions before the latest), start and end date in every documented form, searched text or pattern, maximum number (the most recent ones) and level of detail. '
  'Writing to a file replaces it, or with append adds to the end, with the same text that would be printed. '
  'Showing the log never changes the stored entries.',
  ['histories', 'inputs'],
  'All histories of sessions on a simulated clock (jumps back and forward included) and all combinations of query arguments.',
  'The tests use the real clock, one or two sessions and single filters.',
  [LOG], [('showLog / SessionLogger.showLog / buildSelectStatement', LOG)], ['printed or written log text'])

P('C07', 'A fetch interrupted or failed at any point never leaves bad data to be served',
  'If a fetch of remote data is cut off at any point by a crash, network failure or disk error, then after restarting, fetching the same source again (with the network healthy) returns only files whose contents are complete and equal to what the source provides. '
  'A fetch that cannot deliver complete files raises an error (other than returning a complete archive it could not unpack), and a failed refresh leaves no truncated or mixed file in place of good data. ',
  ['crash_points', 'fault_sequences', 'histories'],
  'Every crash point, network fault and disk fault during downloads of plain, gzip, zip and tar sources, followed by any history of further fetches.',
  'The tests replace the network with an always-successful stub and never interrupt a fetch.',
  [CRE, 'nimble/core/create.py'], [('fileFetcher, URL managers, archive processing', CRE)],
  ['files returned by nimble.fetchFiles and their bytes'],
  [('local nimbleData directory', 'files trusted on later fetches because they exist', CRE)])

P('C08', 'Fetched files are stored once, stably, and refreshed only on request',
  'Fetching a source stores it under a location determined by its address, distinct for distinct addresses, and returns the paths of its (unpacked) files with the source\'s content. '
  'Fetching again without overwrite returns the same paths and content without downloading; with overwrite it returns the same paths with the source\'s current content. '
  'Loading data directly from an address never touches the stored files and always reflects the current source.',
  ['histories', 'inputs'],
  'All histories of fetches, refreshes, data loads, location changes and source-content changes over plain, gzip, zip and tar sources.',
  'The tests fetch each source once or twice with fixed contents.',
  [CRE, 'nimble/core/create.py'], [('fileFetcher, URL managers', CRE)],
  ['returned paths and bytes', 'requests that reached the network'])

P('C09', 'Saving data or learners fails loudly or round-trips, and never alters the object',
  'Saving a data object (any supported format and type, views included) or a trained learner either raises an error or leaves a file that loads back as an equal object (for formats that keep names, with its names). '
  'Whether the save succeeds, is refused, or fails half-way through a disk error, the object in memory is unchanged. ',
  ['fault_sequences', 'inputs', 'crash_points'],
  'All objects, formats and name options, with every disk operation of the save able to fail (refused open, full disk, short or torn write, I/O error, failed close).',
  'The tests save to a healthy disk and compare only the reloaded object.',
  [BAS, 'nimble/core/data/dataframe.py', 'nimble/core/data/matrix.py', 'nimble/core/data/list.py', 'nimble/core/data/sparse.py', UNI],
  [('Base.save and per-type save implementations', BAS), ('TrainedLearner.save', UNI)],
  ['the saved file loaded again', 'the object compared with a snapshot'])

P('C10', 'Loading from files and streams is exact or fails; open sources stay usable',
  'Loading from a path, an open text or binary file, or a compressed or archived copy of the same content gives equal objects, however the reads are split. '
  'A read error, or a damaged or truncated compressed, archived or binary source, raises an error instead of giving an object with missing or altered values. '
  'After loading from an open source, the source is still open and at the position where it was, and files nimble opened itself are closed, also when loading fails.',
  ['fault_sequences', 'inputs'],
  'All sources (csv, mtx, hdf5, pickle; plain, gzip, zip, tar; path, file or memory stream) and all read errors, short reads and truncations.',
  'The tests load intact files once from each kind of source.',
  [CRE, 'nimble/core/create.py'], [('createDataFromFile', CRE)],
  ['the loaded object or error', 'stream position/closed state', 'files still open'])

P('C11', 'Library-internal randomness never disturbs the user\'s random stream',
  'Operations given a seed, and seeded random sections, leave the library-wide random stream exactly where it was, also when they raise or are interrupted, nest, or are abandoned; operations that draw from the library-wide stream are determined by the last set seed and the draws since. '
  'Setting the library-wide seed restarts both of its generators, and is refused inside a seeded random section.',
  ['histories', 'fault_sequences', 'schedules'],
  'All interleavings of seeded and unseeded operations, nested seeded sections, and exceptions or interrupts raised inside learners, callbacks and sections.',
  'The tests compare a few calls in sequence and never interrupt a seeded operation.',
  [RND, UNI, LRN, TUN], [('alternateControl, setRandomSeed', RND)],
  ['draws from nimble.random generators after each operation'],
  [('pythonRandom/numpyRandom', 'library-wide streams, swapped while a seeded section is active', RND)])

P('C12', 'The same seed gives the same result in every process and history',
  'An operation given an explicit random seed returns the same result whatever was done before it in the session, in whatever order operations are issued, and in any process. '
  'After setting the library-wide seed, a given sequence of operations gives the same results in every process, including processes that differ in hash randomisation, clock and memory layout. ',
  ['histories', 'schedules', 'configurations'],
  'All orders and prefixes of operations, and processes with different hash seeds, clocks and identities.',
  'The tests repeat a call within one process with one hash seed.',
  [RND, UNI, LRN, TUN, 'nimble/core/interfaces/custom_learner.py'],
  [('randomSeed arguments, alternateControl, setRandomSeed', RND)],
  ['results of seeded operations across simulated processes'])

P('C13', 'Learning operations never alter their inputs, even when they fail',
  'Training, applying, testing, retraining, tuning, cross-validating and filling with learners leave every data object and argument passed to them unchanged, except the data an operation is documented to modify, which is modified only if the operation succeeds. '
  'This also holds when a learner, performance function or callback raises or is interrupted at any call, or when the user interrupts the operation anywhere. '
  'Later changes to what such an operation returned never alter its inputs.',
  ['fault_sequences', 'inputs', 'histories'],
  'All learning operations over all data types, with the k-th call of any user-supplied learner or function failing, for every k.',
  'The tests compare inputs after a few successful calls; failures in the middle are not injected.',
  [LRN, UNI, TUN, 'nimble/core/interfaces/custom_learner.py', 'nimble/core/data/points.py', 'nimble/core/data/features.py'],
  [('train, trainAndApply, normalizeData, fillMatching', LRN)], ['snapshots of inputs before and after'])

P('C14', 'A trained learner changes only by a successful retrain, and only then',
  'Applying, testing, querying, copying or saving a trained learner, or later changing the objects given to or returned by it, never changes how it behaves afterwards. '
  'Retraining that fails or is interrupted leaves the learner predicting as before, and a failed retraining or incremental training leaves its reported arguments as before; '
  'a successful retraining makes it behave like a learner freshly trained with the reported arguments (previously set values kept unless replaced). '
  'Other learners and copies are unaffected, except that a shallow copy shares incremental training.',
  ['histories', 'fault_sequences'],
  'All histories of train/apply/test/retrain/incrementalTrain/save/load with failures injected at any learner call.',
  'The tests retrain once, successfully.',
  [UNI, 'nimble/core/interfaces/custom_learner.py'], [('TrainedLearner.retrain / incrementalTrain', UNI)],
  ['predictions and reported arguments before and after'])

P('C15', 'An in-place data operation either completes or leaves the data unchanged',
  'When a function supplied by the user to an operation that modifies data in place (transforming, filling, sorting, extracting, deleting, retaining, splitting, replacing and the like, on elements, points or features) raises or is interrupted at any of its calls, or when the operation is refused because of its arguments, the object is left with all its values, names and shape as before. '
  'When no call fails, the result of such an operation is the same on every data type, and operations documented to return a new object never modify the original.',
  ['fault_sequences', 'inputs', 'histories'],
  'All in-place operations on all data types, with the k-th call of the callback failing, for every k, over histories of operations.',
  'The tests only use callbacks that succeed, or fail on the first call.',
  ['nimble/core/data/axis.py', BAS, 'nimble/core/data/list.py', 'nimble/core/data/matrix.py', 'nimble/core/data/dataframe.py', 'nimble/core/data/sparse.py',
   'nimble/core/data/listAxis.py', 'nimble/core/data/matrixAxis.py', 'nimble/core/data/dataframeAxis.py', 'nimble/core/data/sparseAxis.py'],
  [('transform/extract/sort/... front ends and per-type implementations', 'nimble/core/data/axis.py')],
  ['snapshot of the object before and after the failed call'])

P('C16', 'Tuning reports a consistent, truly best result within its limits',
  'After tuning, the reported best arguments are those whose validated performance is optimal among all reported, every result recorded by the selection is reported in ranked order with the scores actually obtained, and the returned learner is trained on all training data with the best arguments. '
  'Every evaluated argument set takes its values from the given ranges. '
  'Brute force evaluates every combination, consecutive selection every value of each argument with the others at their best, and a limited selection ends only at a limit (iterative: or when no neighbouring value is better). No evaluation (iterative selection: no iteration) starts after the time limit, the evaluation limit, or the performance threshold has been reached, on any behaviour of the clock and of the learner; a tuning that failed does not affect the next one with the same Tuning.',
  ['schedules', 'inputs', 'fault_sequences'],
  'All tuning strategies, score landscapes, per-evaluation durations on a simulated clock, and limits; evaluations that fail.',
  'The tests use the real clock, smooth landscapes and check only that tuning ran.',
  [TUN, LRN, UNI], [('Tuning, ArgumentSelector subclasses', TUN)],
  ['evaluations recorded by the simulated learner and clock', 'the reported results and arguments'])

P('C17', 'Cross-validation uses every point exactly once and never leaks',
  'In every cross-validation each point is tested exactly once, by a learner trained on exactly the other folds\' points with their own labels, for every number of folds, order of points and state of the random stream; hold-out validation never tests on a point it trained on; all argument sets of one tuning are validated on the same folds. '
  'The reported score is that of those predictions, and a validation that failed or was interrupted does not affect the next one.',
  ['inputs', 'fault_sequences', 'histories', 'schedules'],
  'All data sizes, fold counts, validation strategies and random streams, with failures injected at any fold.',
  'The tests check a few sizes and never fail a fold.',
  [TUN, LRN], [('Validator, KFold, LeaveOneOut, Holdout*, FoldIterator', TUN)],
  ['rows seen by the simulated learner on each train and apply'])

P('C18', 'Missing or broken optional packages never break what does not need them',
  'For any subset of the optional packages that is missing or fails when imported, the library imports and every operation that does not need them gives the same results as with all packages present. '
  'An operation that needs one of them, or would use one whose version is not supported, raises a package error naming it, without altering its inputs, and works normally where the package is available, also after an earlier import of it failed.',
  ['configurations', 'fault_sequences'],
  'All subsets of optional packages and ways for their import to fail.',
  'The tests run in one environment with almost everything installed and disable one package at a time for a few calls.',
  ['nimble/_dependencies.py', 'nimble/_utility.py', 'nimble/core/interfaces/_collect_interfaces.py', 'nimble/core/_learnHelpers.py'],
  [('DeferredModuleImport', 'nimble/_utility.py')], ['results and errors of operations in sessions with injected import faults'])

# ---- outside the reach of simulation (pure functions of their input) ----
NA = [
 ('C19', 'All data types give the same answers', 'The same operation on the same logical data gives equal results whichever of the data types (list, matrix, data frame, sparse) holds it, views included.', BAS),
 ('C21', 'Queries and matches select exactly what they say', 'Query strings and match functions select exactly those points, features or elements that satisfy the stated condition, for every value including missing ones.', 'nimble/match/query.py'),
 ('C22', 'Calculations agree with their mathematical definitions', 'Statistics, similarity, loss and linear algebra functions return the value of their definition for every numeric input, including missing and degenerate data.', 'nimble/calculate/statistic.py'),
 ('C23', 'Merging and joining follow relational semantics', 'Merging two objects on names or a feature gives the rows and columns of the corresponding join for every combination of keys, duplicates and missing values.', BAS),
 ('C24', 'Text display shows the data faithfully within its limits', 'Printed representations fit the requested size and each shown value, name and ellipsis corresponds to the data.', 'nimble/core/data/_dataHelpers.py'),
]
for id_, title, st, f in NA:
    if id_ == 'C21':
        P('C20', 'Names follow their points and features',
          'Through every history of reordering, sorting, selecting, inserting, removing, replacing, merging (on point names or on a feature), transposing, flattening, splitting, grouping, repeating, naming, viewing, copying, converting, saving and loading, '
          'every point and feature keeps its own values and its own name, which follow it wherever it goes; names stay unique and lookups by name and by index agree, in the object and in everything made from it, '
          'also when operations on the way were refused, their functions failed, or they were interrupted: those leave values and names of the object as they were.',
          ['histories', 'fault_sequences', 'inputs'],
          'All histories of operations on all data types and ways of naming, with refusals and failures at any call on the way.',
          'The tests check one operation on a freshly made object; histories, partly named data and what is left behind after a failure are not tried.',
          [BAS, 'nimble/core/data/axis.py', 'nimble/core/data/points.py', 'nimble/core/data/features.py', 'nimble/core/data/views.py', 'nimble/core/data/list.py', 'nimble/core/data/matrix.py', 'nimble/core/data/dataframe.py', 'nimble/core/data/sparse.py'],
          [('names of an axis', 'nimble/core/data/axis.py'), ('merging', BAS)],
          ['names, values and lookups of every object of the history after every step'])
    P(id_, title, st, ['inputs', 'programs'], 'All inputs.', 'The tests sample a few inputs.', [f], [('implementation', f)], ['return values'])

P('C25', 'Reading data never changes what later operations do',
  'Looking at a data object in any way (asking for its names, values, sizes, views, copies, statistics, matches, groups or printed form, comparing, iterating, saving or exporting it, computing with it, training with it, or passing it as an argument to an operation on another object) has no effect on it: '
  'every later operation on the object has the same result, the same effect and the same error as if nothing had been read, also when the reading failed, was refused, was abandoned half-way or was interrupted.',
  ['histories', 'fault_sequences', 'inputs'],
  'All histories of readings and operations on all data types, with readings cut short at any point.',
  'The tests start each operation from a freshly made object, so what an earlier reading left behind (names created, data sorted or converted, caches) is never there.',
  [BAS, 'nimble/core/data/axis.py', 'nimble/core/data/sparse.py', 'nimble/core/data/views.py'],
  [('lazily created names, internal sorting and conversion', 'nimble/core/data/axis.py')],
  ['results and effects of the same operations on a twin that was not read'])

P('C26', 'Data objects are independent of one another and of raw data',
  'Changing a data object (any in-place operation, element assignment, renaming or in-place arithmetic, whether it completes, fails, is refused or is interrupted) changes no other data object, however they were made from one another, and no raw data (lists, arrays, matrices, frames, dictionaries) it was loaded from, exported to or given as an argument; '
  'changing such raw data in place changes no data object. Views refuse to be changed. Objects given as arguments to operations on other objects are unchanged.',
  ['histories', 'fault_sequences', 'inputs'],
  'All histories in which objects are made from one another in any way and changed in any order, on all data types, with failures at any call or line.',
  'The tests compare an object with its copy after one change; chains of derivations, shared internals and failures in the middle are not tried.',
  [BAS, 'nimble/core/_createHelpers.py', 'nimble/core/data/axis.py', 'nimble/core/data/views.py', 'nimble/core/data/matrix.py', 'nimble/core/data/dataframe.py', 'nimble/core/data/list.py', 'nimble/core/data/sparse.py'],
  [('copying, conversion, creation and _referenceFrom', BAS)],
  ['every other object and raw value of the history after every step'])

with open(OUT, 'w') as fh:
    for r in rows:
        fh.write(json.dumps(r) + '\n')

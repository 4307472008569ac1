"""Writes properties.jsonl and MANIFEST.json (run it after changing them here; not part of any check)."""

import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DS = 'timeseria/datastructures.py'
TR = 'timeseria/transformations.py'
OP = 'timeseria/operations.py'
ST = 'timeseria/storages.py'
UT = 'timeseria/utilities.py'
UN = 'timeseria/units.py'
PL = 'timeseria/plots.py'
IN = 'timeseria/interpolators.py'
MB = 'timeseria/models/base.py'
MF = 'timeseria/models/forecasters.py'
MR = 'timeseria/models/reconstructors.py'
MA = 'timeseria/models/anomaly_detectors.py'

PROPERTIES = []


def prop(id, title, statement, over, text, why, files, mechanism, level_note, observe=None):
    anchors = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}
    if observe:
        anchors['observe_at'] = observe
    PROPERTIES.append(({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': anchors}, level_note))


prop('P01', 'A series is always ordered and homogeneous, whatever a faulty feed delivers',
     'Whatever sequence of items is appended, inserted, removed, popped or cleared, a series only ever holds items of one kind in strictly increasing order (contiguous if slots), with the same data labels or size, and its resolution is the one of the items it holds. '
     'An item or an operation which would break this is refused with an error and leaves the series exactly as it was, and one which would not is accepted.',
     ['histories', 'fault_sequences'], 'every history of appends, inserts, removes, pops and clears, with lost, duplicated, reordered, redelivered and corrupted items',
     'The tests append and insert a handful of hand-written items; what goes wrong needs particular sequences (a refused item followed by others, a removal followed by an insertion).',
     [DS, UN], [('append, insert, remove, pop, clear', DS + ' (Series, TimeSeries)'), ('item compatibility and succession', DS + ' (Point, Slot and their time variants)')],
     'Seeded histories of up to about 60 deliveries and repairs on points, slots and calendar slots, against a reference model of legal sequences.')

prop('P02', 'What a series answers depends only on the items it holds',
     'Whatever was done on a series before (items added or removed, labels renamed, time zone changed, operations performed in place) and whatever was asked to it before, even if interrupted halfway, every query on it gives the same answer as a series built from scratch with the same items. '
     'Queries never change the series, and an operation performed in place leaves the series with the values which the same operation gives when not performed in place.',
     ['histories', 'crash_points'], 'every interleaving of changes and queries, with queries interrupted at any executed line',
     'The tests query freshly built series; stale cached answers need a query, then a change, then the query again.',
     [DS, OP, TR], [('cached resolution, sampling interval, time zone', DS), ('in-place operations', OP)],
     'Seeded interleavings of changes and queries, with interruptions and failed allocations injected at arbitrary lines, against a series rebuilt from its items.')

prop('P03', 'Resampling and aggregating keep track of every data loss',
     'Whatever readings are lost, delayed, duplicated or displaced by clock drifts, resampling and aggregating a series give contiguous, non-overlapping intervals of exactly the requested unit (across daylight saving time changes for calendar units) covering the observed period without leaving out complete intervals. '
     'The data loss of every interval is exactly the fraction of it not covered by the validity of any reading, always between zero and one, and aggregating data which was already resampled accounts for the losses of both steps. '
     'Data arriving later does not change the intervals which were already complete.',
     ['inputs', 'fault_sequences', 'configurations'], 'every sequence of readings with losses, outages, delays, duplications, jitter and clock skew or jumps, any sampling interval and unit',
     'The tests check some fixed gaps; the data loss depends on how readings, gaps and interval boundaries fall relative to each other.',
     [TR, UT, DS, UN], [('slicing in intervals and computing data losses', TR + ' (Resampler, Aggregator)'), ('data loss from validity regions', UT)],
     'Seeded simulated sensors behind a faulty network, against an independent computation of coverage and calendar edges.')

prop('P04', 'Resampled and aggregated values are the ones of the observed signal',
     'Whatever goes missing on the way, the value of a resampled point (and the average of an aggregated interval) is the time-weighted average of the readings over their validity and of the linear interpolation between them where nothing was read. '
     'The minimum, maximum, sum and user-defined operations are computed on the readings of the interval plus one interpolated value for each gap between them (interpolators also answer at single instants), other data indexes are averaged over the readings carrying them, intervals completely lost are filled with the requested value if any, and the source series is not changed.',
     ['inputs', 'fault_sequences', 'configurations'], 'every sequence of readings with losses, outages, delays, duplications, jitter and clock skew or jumps, any sampling interval, unit and set of operations',
     'The tests compare a few fixed series; wrong weights and wrong neighbours show only for particular alignments of gaps and boundaries.',
     [TR, OP, UT, IN], [('computation of each interval', TR), ('weighted average', OP + ' (Avg)'), ('interpolation of missing data', IN)],
     'Seeded simulated sensors behind a faulty network, against an independent piecewise integration.')

prop('P05', 'A collection pipeline which crashes and restarts loses and invents nothing',
     'Whenever a process collecting readings in a series, saving it on a file as it goes and restarting from what it saved, is crashed, interrupted, or cannot save because of a disk error, what it ends up with once the missing readings are redelivered is the same series which a process that was never disturbed collects. '
     'At any moment the file holds exactly one of the versions which were saved (unless the power was lost, the last one for which saving was reported successful or the one being saved), and what is computed from the collected series (resampling, aggregation, reconstruction) is the same as for the undisturbed one.',
     ['crash_points', 'fault_sequences', 'histories'], 'every sequence of deliveries, checkpoints, crashes, power losses, disk errors and interruptions, and restarts in other environments',
     'The tests never restart from a file; what is lost needs a save, a restart, an append and another save with a fault in between.',
     [DS, ST, TR, MR], [('append and insert', DS), ('save and load', DS + ' (TimeSeries)'), ('put and get', ST + ' (CSVFileStorage)')],
     'Seeded collector life cycles with several incarnations over a simulated raw file layer, against an undisturbed collector.')

prop('P06', 'A stored series is loaded back exactly as it was, in any environment',
     'A series of points or slots with any labels, values, indexes and time zone, stored on a file and loaded back, carries exactly the same items, whatever the locale, time zone and clock of the processes writing and reading it, whatever the configured encoding and separator, and however the system splits reads and writes. '
     'Slots of days, months and years are recognised also when loaded without saying what they are. It can be stored again over itself, and what is stored is the same whoever stores it.',
     ['inputs', 'configurations', 'fault_sequences'], 'every series, encoding, separator, environment of the writer and of the reader, and sequence of short reads and writes',
     'The tests run in one locale and time zone, on a few ASCII series, with a file system which never delivers partial reads.',
     [ST, DS, UT], [('storing and loading', ST + ' (CSVFileStorage)'), ('save and load', DS + ' (TimeSeries)'), ('detection of the encoding', UT)],
     'Seeded series and environments over a simulated raw file layer with short reads and writes.')

prop('P07', 'Storing a series is all or nothing, at any crash point or disk error',
     'If the process crashes, the power is lost, it is interrupted or any system call fails while a series is being stored on a file, the file holds either what was there before or the complete new series, and never anything else; if storing reports success the new series is durable against a crash, and if it reports an error the file is unchanged or complete. '
     'Nothing else is left on the file system by a failed attempt which is not a crash, an existing file is not overwritten unless asked to, and a retry after the fault succeeds.',
     ['crash_points', 'fault_sequences'], 'every crash point (with any legal state of not yet durable writes) and every failing system call or interruption while storing, over any previous content',
     'The tests never make a disk fail nor crash in the middle of a write.',
     [ST, DS], [('put', ST + ' (CSVFileStorage)'), ('save, to_csv', DS + ' (TimeSeries)')],
     'Seeded crash points, power losses with torn and reordered writes, disk errors, full disks and interruptions at arbitrary lines, over a simulated raw file layer.')

prop('P08', 'Damaged files and failing disks never give a silently wrong series',
     'Loading a file whose lines were cut, garbled, lost, duplicated, swapped or padded gives either an error or a series whose values are exactly the ones of the readable lines of the file in order: a value is never attributed to another time or label, made up or changed, and lines are never silently dropped (except those cut before the first separator) unless skipping errors was asked for. '
     'For slots, the missing ones are only ever filled as completely lost data. Disk errors while reading are always reported.',
     ['fault_sequences', 'inputs', 'configurations'], 'every sequence of damages to a stored file, read errors and short reads at any point, with or without skipping errors',
     'The tests load a few well-formed files and a handful of malformed ones.',
     [ST, UT], [('reading and parsing lines', ST + ' (CSVFileStorage.get)'), ('filling missing slots', ST)],
     'Seeded damages and read faults against an independent line-by-line oracle of what the file says.')

prop('P09', 'What is read from a storage is what is stored there now',
     'Whatever was read or written before through the same or another storage object, whatever failed before, and even if another process replaces the file in the meanwhile, reading a storage gives the series which is stored there (a single one of the versions, never a mix of two), as a fresh storage object with the same configuration would.',
     ['histories', 'fault_sequences', 'schedules'], 'every history of reads and writes by several storage objects and other processes, with failures and files replaced between any two operations on the file system',
     'The tests use each storage once; what is wrong here needs a second read after the content of the file changed.',
     [ST, DS], [('automatic detection of formats, columns and encoding', ST + ' (CSVFileStorage)'), ('load', DS)],
     'Seeded histories of storages over a simulated raw file layer in which other processes act between any two operations.')

prop('P10', 'A saved model answers as the original one, in any environment',
     'A fitted model saved and loaded back (any number of times) gives exactly the same predictions, forecasts, applications, evaluations and refusals as the original one on every series, whatever the locale, time zone and clock of the processes saving and loading it and however the system splits reads and writes. '
     'Saving does not change the model, and the loaded model and the original one are independent of each other.',
     ['inputs', 'configurations', 'fault_sequences', 'histories'], 'every model, parameters, series, number of save and load generations and environment',
     'The tests save and load a few models in one environment, and only compare some of the parameters.',
     [MB, MF, MR, MA], [('save and load', MB + ' (Model, _KerasModel, _ProphetModel)'), ('parameters of each model', MF + ', ' + MR + ', ' + MA)],
     'Seeded models, series, environments and generations over a simulated raw file layer with short reads and writes.')

prop('P11', 'Saving a model is all or nothing, and a damaged one is never loaded',
     'Whatever error, full disk, interruption, crash or power loss happens while saving a model, what is found at the path is either the complete model or something which is refused with an error when loading it: a partial or different model is never loaded. '
     'If saving reports no error then the model loads back and answers as the original, if it failed because of the disk then nothing is left at the path, the model itself is not affected, and saving again once the faults stop works. '
     'What is already at the path (a model, a file, a folder) is never overwritten or changed, and errors while loading are always reported.',
     ['crash_points', 'fault_sequences'], 'every crash point, power loss, disk error, short write and interruption while saving or loading any model',
     'The tests save and load on a working disk.',
     [MB, MF, MR, MA], [('save and load', MB + ' (Model, _KerasModel, _ProphetModel)')],
     'Seeded faults at any operation on a simulated raw file layer (with torn and lost writes), and interruptions at any executed line.')

prop('P12', 'What a model answers depends only on its last completed fit',
     'Whatever was done with a model before (fits, failed or interrupted fits, cross validations, saves, predictions, applications), it answers exactly as a new model on which only its last completed fit was performed. '
     'After a fit which failed or was interrupted it either answers as before or it is not fitted, and a model which is not fitted refuses to predict, apply, evaluate and be saved. Series pre-processed by a model are never used for a fit they were not pre-processed for.',
     ['histories', 'crash_points', 'fault_sequences'], 'every history of fits, failures, interruptions at any executed line, cross validations, saves and queries, for any model, parameters and series',
     'The tests fit each model once and use it; leftovers of a previous or failed fit need a second one.',
     [MB, MF, MR, MA], [('fit, predict, apply, evaluate and cross validation logic', MB + ' (Model)'), ('fit of each model', MF + ', ' + MR + ', ' + MA)],
     'Seeded histories with bad series, interruptions and failed allocations at any executed line and failing user-defined models, against models built from scratch.')

prop('P13', 'Computing something from a series never changes it, even if failing halfway',
     'Operations, transformations, conversions, storages, models and plots never change the series (or the other arguments) they are given, unless asked to work in place, and even if they fail, are interrupted at any point or cannot allocate memory. '
     'What operations, transformations and model applications give shares nothing with what it was computed from: a change to one is never seen on the other. Performing the same operation again after a failure gives what it would have given without it.',
     ['histories', 'crash_points', 'fault_sequences'], 'every operation, transformation, conversion and model use, interrupted at any executed line or failing for any reason, followed by any change to the source or to the result',
     'The tests compare results, seldom what they were computed from, and never after a failure halfway or a later change.',
     [DS, OP, TR, MB, MF, MR, MA], [('duplication and operations', DS + ', ' + OP), ('transformations', TR), ('model decorators', MB)],
     'Seeded histories of computations with interruptions, failed allocations and failing user code, with complete snapshots of every argument.')

prop('P15', 'A view answers as the slice of the series it denotes',
     'A view on a part of a series gives exactly what the slice of the series with the same positions gives (items, iteration even if nested, positions, slices, queries, operations, transformations, forecasts), at any moment and whatever happened to the series since the view was created. '
     'It never gives an item outside of the part it denotes, refuses to be changed, and using it never changes the series nor the answers of other views and iterations going on.',
     ['histories', 'schedules'], 'every view, history of changes to the viewed series, and interleaving of iterations and queries on the series and its views',
     'The tests use a few views on series which do not change, one iteration at a time.',
     [DS], [('views and iteration', DS + ' (SeriesView, TimeSeriesView, Series)')],
     'Seeded histories of changes, queries and interleaved iterations on several views, against the slices they denote.')

prop('P16', 'Concurrent readers get the same answers as if they were alone',
     'However many threads query, operate on, transform, view, store and load the same series, apply the same fitted models, and use the same transformations and storages at the same time, and whichever of them are stalled or interrupted halfway, each one gets the same answers as if it was alone, as long as none of them changes what they share. '
     'The series, the models and what is stored are the same afterwards.',
     ['schedules', 'fault_sequences'], 'every interleaving (at the granularity of the executed lines) of any set of threads only asking things, with interruptions at any line of any thread',
     'The tests are single-threaded.',
     [DS, OP, TR, IN, ST, MB, MF, MR, MA], [('queries, views and iteration', DS), ('transformations and interpolators', TR + ', ' + IN), ('models', MB), ('storages', ST)],
     'Seeded thread schedules under a deterministic scheduler, against each thread running alone on its own copy.')

prop('P17', 'The same inputs give the same results in every process',
     'Operations, transformations, conversions, storages and models give exactly the same results (also in the order of labels and keys) on the same series and parameters, whatever the hash seed, time zone, locale, clock, optimisation level and random state of the process, the order in which parallel jobs complete, and whatever the process did before, even if interrupted halfway. '
     'The date of creation in stored files and the identifiers of models are the only exceptions.',
     ['configurations', 'histories', 'schedules'], 'every workload, environment of the process, completion order of parallel jobs and previous history, interrupted at any line or not',
     'The tests run once, in one environment, in a fixed order.',
     [DS, OP, TR, ST, MB, MF, MR, MA], [('everything which could depend on ordering, clock or state of the process', DS + ', ' + MA)],
     'Seeded workloads in processes with different environments, histories and completion orders, compared with a reference process.')

prop('P14', 'Reconstructing changes only what was lost, from what was observed around it',
     'Applying a reconstructor replaces the data of all the items with a data loss equal to or above the threshold, and of no others, with what the model predicts from the items observed right before and right after each gap: '
     'the linear interpolation between them, or the periodic average learned from the items which were not lost (on the local calendar for days and months, on the local time if affected by the daylight saving time) plus the average difference at the two ends. '
     'Times, time zone, labels and other indexes are kept, and every item is marked as reconstructed or not. Reconstructing again gives the same, in place as well as not, and data arriving later never changes what was already reconstructed. '
     'A gap at the ends of the series and data unlike the one the model was fitted on are refused, and a refused, failed or interrupted reconstruction leaves the source as it was.',
     ['inputs', 'fault_sequences', 'crash_points'], 'every sequence of outages, threshold, fitted history, kind of series, and moment at which the series is reconstructed',
     'The tests reconstruct a few fixed series; wrong neighbours, phases and leftovers show only for particular layouts of gaps, thresholds and calendars.',
     [MR, MB, IN, UT], [('gap detection and reconstruction', MR + ' (Reconstructor)'), ('linear interpolation and periodic averages', MR), ('position in the period', UT)],
     'Seeded outages (also through simulated sensors, a faulty network and resampling or aggregation), at several moments in the life of a series, with interruptions, against an independent computation.')

prop('P18', 'Anomaly detection judges all and only the items which can be judged',
     'Applying an anomaly detector gives, in order and with their data and other indexes, all the items which have enough of the others around them, each one with an anomaly index unless it or one of the items needed for predicting it was lost. '
     'The index is zero if the prediction error is below the lower bound, one if above the upper bound, and in the middle follows the distribution of the errors on the series the detector was fitted on, where the error is the difference from what the model predicts without knowing the item. Pre-processing changes nothing of it. '
     'Marking events marks exactly the groups of anomalous items which are persistent enough, tolerating gaps up to the maximum one, wherever they are in the series. The source is never changed, even if interrupted.',
     ['inputs', 'fault_sequences', 'crash_points'], 'every sequence of outages and anomalies, detector, error metric, bounds and thresholds, and moment at which the detector is applied',
     'The tests apply detectors to a few fixed series with no losses; what happens around losses, at the ends and beyond the bounds depends on their layout.',
     [MA, MB, UT], [('application of the detectors', MA + ' (ModelBasedAnomalyDetector)'), ('marking events', MA + ' (AnomalyDetector)'), ('error distributions', UT)],
     'Seeded outages and anomalies at several moments in the life of a series, with interruptions, against errors computed with the models on their own and an independent computation of indexes (normal distributions) and events.')

prop('P19', 'Models are evaluated only on what they did not know',
     'Evaluating a forecaster predicts each item after the window exactly once knowing only the items before it, and evaluating a reconstructor predicts exactly the requested gaps surrounded by data which was not lost; the scores (and the results series, if requested) are the ones of those predictions. '
     'Cross validating uses consecutive and disjoint parts of the series covering as many items as fill the rounds, each evaluated once on a model fitted on nothing of it (as if it was a new one), and gives the average and standard deviation of the scores. '
     'Evaluating again gives the same, the series is not changed, and after a cross validation, even if failed or interrupted in any round, the model is not fitted.',
     ['inputs', 'crash_points', 'histories'], 'every series, model, number of rounds or steps, metrics, and failure or interruption at any executed line',
     'The tests look at a few final scores, which do not tell what the model knew and are not recomputed from the predictions.',
     [MB, MF, MR, UT], [('cross validation', MB + ' (Model)'), ('evaluation of forecasters', MF), ('evaluation of reconstructors', MR), ('error metrics', UT)],
     'Seeded evaluations of models writing down what they know (and of the ones of the package), with failures and interruptions, against scores recomputed with fresh models on copies of the data.')

prop('P20', 'Forecasts continue the series, whenever they are made',
     'A forecast gives the requested number of items right after the end of the series, each one following the other (also across daylight saving time changes and on calendar units), on its time zone and with its labels; applying a forecaster appends exactly them, marked as forecasts, leaving the others as they were and marked as not. '
     'Fitted on a signal with a period, a periodic average forecaster continues exactly any series with the same signal at any level. Longer forecasts start with the shorter ones, depend only on the window, move with the level of the series, and forecasting on from a forecast is the same as a longer one. '
     'Data unlike the one the model was fitted on and series shorter than the window are refused, and a refused, failed or interrupted forecast leaves the source as it was.',
     ['inputs', 'histories', 'configurations', 'crash_points'], 'every kind of series, time zone, unit, period, window, level and history with losses, and moment at which the forecast is made',
     'The tests forecast a few fixed series, mostly on UTC; wrong phases, offsets and times show only on particular calendars, levels and windows.',
     [MF, MB, UT, UN, DS], [('forecast and application', MF + ' (Forecaster)'), ('periodic averages', MF + ' (PeriodicAverageForecaster)'), ('position in the period', UT)],
     'Seeded exactly periodic or noisy signals on physical and calendar units, forecast at several moments in the life of the series, with interruptions, against the signal itself and metamorphic relations.')

prop('P21', 'Operations agree with their definitions, in any chain, on lossy sensors data',
     'On any series of points or slots, regular or with holes, with labelled or list data, every operation (minimum, maximum, average, sum, derivative, differences, integral, cumulative sum, normalisation, rescaling, offset, moving average, filter, slice, selection, access by position or time) gives what its definition gives on the readings, for every label and also in place or on the result of any other operations, keeping times, units, time zone and data indexes. '
     'The integral undoes the derivative, and the cumulative sum undoes the differences, on every label and with whatever holes. '
     'Merging what several sensors delivered gives, for each moment at which all of them were there, the values and data indexes of all of them (averaged if several carry the same label); series which are irregular, of different resolutions or not aligned with each other are refused instead.',
     ['inputs', 'histories', 'fault_sequences'], 'every sequence of operations on the series of one to three sensors with losses, outages, delays, duplications and clock jumps, on physical and calendar units',
     'The tests apply each operation to one or two short regular series, mostly with a single label; mistakes on holes, on further labels, on list data or in chains do not show there.',
     [OP, DS, UN], [('operations', OP), ('access to items and labels', DS)],
     'Seeded chains of operations on series from simulated sensors, against an independent executable model of all the operations advanced along with them, and inverse relations.')

prop('P22', 'A series exchanged as JSON, dictionaries or data frames arrives as it was',
     'A series of points or slots (of any physical or calendar unit), with labelled, list or plain values, converted to a dictionary, JSON or a data frame and back (also if written by others with numeric, text or date keys) carries the same instants up to the microsecond, intervals, labels and values, on its time zone (on UTC for forms which do not carry it), with the data loss in data frames; and can be converted again. '
     'Sent in pieces over a network which loses, duplicates, delays and truncates messages, between parties on different time zones, it can always be put together again exactly, and a truncated message is refused rather than taken as a shorter series.',
     ['inputs', 'fault_sequences', 'configurations'], 'every series, form, division in pieces and sequence of losses, retransmissions, duplications, delays and truncations of the messages, and environment of the parties',
     'The tests convert a few short series on UTC in one process.',
     [DS, UN], [('to and from dictionaries, JSON and data frames', DS + ' (TimeSeries)'), ('append and insert', DS)],
     'Seeded exchanges between simulated parties over a faulty network, with the received series compared with the one which was sent.')

prop('P23', 'Plots show all of the series and nothing else, at the right time and place',
     'A plot of a series (or of a part of it), as HTML code, as a page saved on a file or in a notebook, is a working page which shows every item exactly once, in order and at its local time on the time zone of the series, with the values of the requested data labels (whatever their characters) and data indexes with the stated precision, in a range which includes them all, and with marks and legend in agreement. '
     'Aggregating in plots gives minimum, average and maximum of consecutive groups of items covering the series up to its end. It is the same whatever the locale and time zone of the process, after changes to the series, failures and interruptions; a disk error is reported, what is saved successfully is complete, and the series is never changed. Unknown labels, indexes and wrong marks are refused.',
     ['inputs', 'histories', 'fault_sequences', 'configurations'], 'every series, part of it, plotting option, environment, disk error and interruption, and history of changes and plots',
     'The tests do not plot.',
     [PL, DS], [('plots with Dygraphs', PL + ' (dygraphs_plot)'), ('plot', DS + ' (TimeSeries)')],
     'Seeded histories of plots and changes under disk errors, interruptions and environments: the scripts of the pages are executed in a stand-in for the browser, and what they show is compared with the series.')

prop('P24', 'Neural network forecasters learn from and predict on just what they are given',
     'A forecaster based on a neural network trains it with all and only the windows of the series with no item lost above the limit, each one with the values, differences and local hours which were asked for, normalized as in the training, for predicting the target labels of the following item, knowing at most its context labels. '
     'What it then predicts, forecasts, applies, evaluates (alone or in cross validation) or detects as anomalous is what a network trained only with that answers, given the items right before and the context, on the original scale. '
     'It depends only on the last completed fit (with whatever settings), is the same after saving and loading, is refused if not fitted, without the context or on data of another kind, and failing or interrupted computations never change the series or leave a model half fitted.',
     ['inputs', 'histories', 'fault_sequences', 'configurations'], 'every series, network settings, and history of fits, predictions, evaluations, saves and failures',
     'The tests compare a few errors on one series, and are skipped where TensorFlow is not available.',
     [MF, MB, MA], [('LSTM forecaster', MF + ' (LSTMForecaster)'), ('samples and features', MB + ' (_KerasModel)'), ('LSTM anomaly detector', MA)],
     'Seeded histories of fits, predictions and failures on a stand-in for the networks which learns from everything it is given, against an independent computation of what it has to be given.')

prop('P25', 'Prophet and ARIMA models pass on just the series and ask about the right times',
     'A forecaster or reconstructor based on Prophet tells it all and only the values of the series it is fitted on, each with its local time, and gives as forecast (or reconstructed) data what Prophet then answers about the local times of the items to come (or which were lost), also across changes of the time and on calendar slots. '
     'One based on ARIMA tells its engine all the values in their order and gives what it answers about the following steps, only for series which end where the one of the fit did, even if that one was extended in the meanwhile: any other is refused. '
     'What is forecast is on items contiguous with the series, only lost data is reconstructed, cross validation never tells what it then asks about, and all this depends only on the last completed fit, is the same after saving and loading, and is refused if not fitted or if the last fit failed; failures and interruptions never change the series.',
     ['inputs', 'histories', 'fault_sequences', 'configurations'], 'every series, and history of fits, extensions, forecasts, reconstructions, saves, and of engines, disks and computations which fail at any point',
     'The tests compare the errors on one series with a tolerance, in UTC, right after a fit: asking about another hour, or about a series which was extended, goes unnoticed.',
     [MF, MR, MB], [('Prophet and ARIMA forecasters', MF + ' (ProphetForecaster, ARIMAForecaster, AARIMAForecaster)'), ('Prophet reconstructor', MR + ' (ProphetReconstructor)'), ('conversions, saving and loading', MB + ' (_ProphetModel, _ARIMAModel)')],
     'Seeded histories with stand-ins for the engines which answer something depending on everything they were told and asked, and which fail when decided; some directed runs compare with the real engines.')

NOT_APPLICABLE = []

NOTES = 'The deciding technique is deterministic simulation with fault injection throughout: see DESIGN.md. bin/replay FILE replays the file named on a VIOLATION line.'


def main():
    props = [p for p, _ in PROPERTIES]
    for p in props:
        assert len(p['title']) <= 80, p['id']
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in props:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    manifest = {
        'version': 1,
        'setup_cmd': 'cd /verif && bin/setup',
        'checks': [{
            'property': p['id'],
            'quick_cmd': 'cd /verif && bin/check {} --tier quick'.format(p['id']),
            'thorough_cmd': 'cd /verif && bin/check {} --tier thorough'.format(p['id']),
            'evidence_file': 'evidence/{}.json'.format(p['id']),
            'technique': 'deterministic simulation with fault injection (seeded search over workloads, schedules and fault sequences; replayable, minimised traces)',
            'level': 'exploration',
            'level_note': note,
        } for p, note in PROPERTIES],
        'hooks': {'guard': 'none', 'enable': 'no hooks were needed: the simulator works on the seams of the interpreter (raw files, os functions, tracing, locks), in its own process', 'source_commits': []},
        'not_applicable': NOT_APPLICABLE,
        'notes': NOTES,
    }
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1, ensure_ascii=False)
        f.write('\n')


if __name__ == '__main__':
    main()

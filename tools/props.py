"""Writes properties.jsonl and MANIFEST.json (run by hand; the results are
committed)."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
P = []


def prop(id, title, statement, text, why, files, mech, over=('inputs',),
         state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {'files': files,
         'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w}
                      for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': list(over), 'text': text},
              'why_tests_cant': why, 'anchors': a})


T = 'ABXpy/task.py'
SIDE = ['ABXpy/sideop/side_operations_manager.py',
        'ABXpy/sideop/filter_manager.py', 'ABXpy/sideop/regressor_manager.py']
DBF = ['ABXpy/dbfun/dbfun_column.py', 'ABXpy/dbfun/dbfun_compute.py']

prop('C01', 'The task file lists exactly the valid ABX triplets',
     "For every item file and every choice of 'on', 'across' and 'by' columns, "
     "the triplets (A, B, X) written to the task file are exactly those where "
     "A and X share the 'on' label and B has another one, A and B share every "
     "'across' label and X differs from A on each of them (when there is no "
     "'across' column, A and X are just different items), and all three share "
     "the 'by' labels. Each one appears once, under its own 'by' value, and "
     "the ranges of the 'by' values partition the list.",
     'every assignment of labels to the items, every on/across/by choice',
     'The tests compare the triplets of one or two fixed five-item databases '
     'per feature; a block that is mishandled for another arrangement of '
     'labels is never seen.',
     [T], [('blocks of items by on/across/by label', T + ':Task.__init__'),
           ('factorial design of A, B and X', T + ':Task.on_across_triplets'),
           ('ranges of the by values', T + ':Task.generate_triplets')],
     over=('inputs', 'configurations'),
     observe=['triplets/data, triplets/by_index, bys and feat_dbs of the '
              'task file'])

prop('C02', 'Filters keep exactly the triplets whose items satisfy them',
     "Adding filters to a task keeps exactly the valid triplets whose A, B, X, "
     "'on', 'across' and 'by' values satisfy every filter, for every "
     "combination of filters and every way of naming a value (bare column, "
     "_A, _B, _X and their combinations). A filter never adds, duplicates or "
     "changes a triplet.",
     'all label assignments, all filters and combinations of the catalogue',
     'The tests use one filter at a time on one database; interactions '
     '(filter that empties a block, two filters at different stages) are not '
     'exercised.',
     [T] + SIDE + DBF,
     [('classification of filters by the stage where they can be applied',
       SIDE[0]),
      ('application of the filters', SIDE[1]),
      ('evaluation of expressions', DBF[1])],
     over=('inputs', 'configurations'))

prop('C03', 'The pairs to compare are those the triplets need, each once',
     "For each 'by' value the list of pairs of the task file contains exactly "
     "the (A, X) and (B, X) pairs of its triplets, each once, in increasing "
     "order, within the range recorded for that 'by' value. The ranges are "
     "contiguous and cover the list, whatever the sizes of the I/O buffers.",
     'all label assignments, all buffer sizes',
     'Pairs are compared with a fixed list on tiny databases that fit in one '
     'buffer; duplicates across buffers never occur.',
     [T, 'ABXpy/h5tools/h5_handler.py', 'ABXpy/h5tools/h52np.py',
      'ABXpy/h5tools/np2h5.py'],
     [('listing, sorting and merging of the pairs', T + ':Task._generate_pairs'),
      ('sorting on disk', T + ':sort_pairs')],
     over=('inputs', 'configurations'))

prop('C04', 'Regressors describe the triplet of their row',
     "Each row of regressors stored in the task file gives the labels of the "
     "A, B and X items (and on/across/by values) of the triplet stored at the "
     "same row of the same 'by' value, for default and requested regressors, "
     "with or without filters and sampling. Every triplet has one row.",
     'all label assignments, regressor choices, filters and draws',
     'The tests only look at default regressors; those happen to be constant '
     'within a block, so a misaligned row is invisible.',
     [T, 'ABXpy/h5tools/h5io.py'] + SIDE,
     [('regressors permuted like the triplets', T + ':Task._compute_regressors'),
      ('storage as indexes', 'ABXpy/h5tools/h5io.py:H5IO.write')],
     over=('inputs', 'configurations'))

prop('C05', 'Sampling keeps min(threshold, size) valid triplets of each group',
     "With a threshold t, the task file holds, for each group of triplets "
     "with the same on, across and by values (and the same value of any "
     "requested regressor on B or X), exactly min(t, size of the group) "
     "distinct triplets, all of them triplets of the unsampled task. "
     "This holds for every outcome of the random draws.",
     'all label assignments, thresholds and random draws',
     'The test of the threshold counts the triplets of one task for one seed; '
     'duplicates or foreign triplets for other draws are not seen.',
     [T, 'ABXpy/sampling/sampler.py'],
     [('group-wise sampling', T + ':sort_and_threshold'),
      ('sampling without replacement',
       'ABXpy/sampling/sampler.py:sample_without_replacement')],
     over=('inputs', 'configurations'))

prop('C06', 'Samplers return distinct, in-range samples of the exact size',
     "Whatever the random draws, sampling n out of N without replacement "
     "returns n distinct values of [0, N). An incremental sampler, cut in "
     "pieces of any sizes until the population is exhausted, returns in total "
     "exactly the requested number of distinct values, each inside the piece "
     "it was drawn from.",
     'all population and sample sizes within bounds, all draws, all ways of '
     'cutting the population',
     'Tests use one seed and check statistics of one run.',
     ['ABXpy/sampling/sampler.py'],
     [('rejection and sequential sampling', 'ABXpy/sampling/sampler.py'),
      ('hypergeometric split between pieces',
       'ABXpy/sampling/sampler.py:hypergeometric_sample')],
     over=('inputs', 'histories'))

prop('C07', 'Statistics of a task agree with the triplets it generates',
     "The number of triplets announced for a task is the number of triplets "
     "generated without a threshold, with and without filters. The "
     "announced numbers of blocks, of items, of on, across and by values and "
     "of level combinations are those of the triplets and items of the task.",
     'all label assignments, on/across/by choices and filters',
     'The tests compare the statistics of a few fixed tasks.',
     [T], [('counting without generating', T + ':Task.compute_stats'),
           ('number of levels', T + ':Task.compute_nb_levels'),
           ('report', T + ':Task.print_stats_to_stream')],
     over=('inputs', 'configurations'))

prop('C08', 'No count, index or key is silently truncated',
     "The integer type chosen for a value range holds every value of that "
     "range. Item indices, pair keys, regressor indices and scores keep their "
     "exact value whatever the number of items, labels and triplets, or an "
     "error is raised.",
     'all sizes, with emphasis on both sides of the limits of the integer '
     'types',
     'All tests use fewer than 128 items, so no type limit is ever crossed.',
     ['ABXpy/misc/type_fitting.py', T, 'ABXpy/score.py',
      'ABXpy/h5tools/h5io.py'],
     [('choice of integer types', 'ABXpy/misc/type_fitting.py')],
     over=('inputs', 'configurations'))

DI = 'ABXpy/distances/distances.py'
prop('C09', 'Distance jobs cover every pair exactly once for any cpu count',
     "For every list of pairs and every number of jobs, the ranges of work "
     "given to the jobs are whole numbers, stay inside one 'by' value each, "
     "and together cover every pair exactly once. No pair is skipped or "
     "assigned twice, even when there are more jobs than pairs or many small "
     "'by' values.",
     'all numbers and sizes of by blocks, all numbers of cpus',
     'Tests run one task with one or two cpus.',
     [DI], [('creation of the jobs', DI + ':create_distance_jobs')],
     over=('inputs', 'configurations'))

prop('C10', 'Distance rows match their pairs, for any number of cpus',
     "Row i of the distance file is the distance between the features of the "
     "two items of pair i of the task (A, or B, first and X second), whatever "
     "the number of jobs and the order in which they finish. Two "
     "jobs never access the output file at the same time, and the file is "
     "marked as done only once all distances are there.",
     'all pair lists, numbers of jobs, interleavings of their writes and '
     'metrics',
     'Tests use one cpu and a fixed set of features.',
     [DI, 'ABXpy/distance.py'],
     [('decoding of pairs and writing of distances', DI + ':run_distance_job'),
      ('lock around the output file', DI + ':run_distance_job'),
      ('done flag', DI + ':compute_distances')],
     over=('inputs', 'schedules', 'configurations'))

prop('C11', 'An item is represented by the frames inside its interval',
     "The features of an item are the frames of its own file whose times t "
     "satisfy onset <= t <= offset, in order and unmodified, for every item "
     "of every 'by' value. An item without frame gives an empty "
     "representation of the right width, never the frames of another item.",
     'all frame times, onsets and offsets',
     'Tests use intervals that match the frames exactly.',
     [DI], [('selection of frames', DI + ':Features_Accessor')])

DT = 'ABXpy/distances/metrics/dtw/dtw.pyx'
prop('C12', 'DTW is the cost of the best monotone alignment',
     "For every cost matrix the dynamic time warping distance is the minimum "
     "total cost over monotone alignments from the first to the last frames; "
     "when normalised, that cost divided by the length of an optimal "
     "alignment. With the default distance, an item without frames is at "
     "an infinite distance of items with frames and at distance zero of "
     "another one without frames.",
     'all cost matrices within bounds',
     'Tests check one or two matrices.',
     [DT], [('dynamic programming', DT)])

ME = ['ABXpy/distances/metrics/cosine.py',
      'ABXpy/distances/metrics/kullback_leibler.py']
prop('C13', 'Frame distances meet their definition on every input',
     "The angular distance is the angle between the two frames divided by pi "
     "and is 1 between a null and a non-null frame and 0 between two null "
     "ones; the "
     "Kullback-Leibler, Jensen-Shannon and Hellinger distances are those "
     "of the frames once normalised. "
     "Computing a distance never modifies the features it is given and "
     "gives the same value when both frames are exchanged, for symmetric "
     "distances.",
     'all frames within bounds, including null and parallel ones',
     'Tests sample ordinary frames.',
     ME, [('angular distance', ME[0]), ('Kullback-Leibler', ME[1])])

prop('C14', 'A score is 1 if X is closer to A, -1 if closer to B, 0 if tied',
     "The score stored for each triplet of the task, at the same position, is "
     "the sign of d(B, X) - d(A, X) for the distances stored for its own "
     "pairs. This holds for every triplet of every 'by' value, whatever the "
     "sizes of the I/O buffers.",
     'all triplets, distances and buffer sizes',
     'Tests compute the scores of one task and compare few of them.',
     ['ABXpy/score.py'], [('retrieval of the distances and comparison',
                           'ABXpy/score.py:score')],
     over=('inputs', 'configurations'))

prop('C15', 'Averaged results are exact counts and means of the scores',
     "The result file has one row per combination of on, across and by "
     "values of a scored triplet, with the right labels, the exact number of "
     "triplets and the mean of their scores rescaled to [0, 1]. No triplet is "
     "lost or counted twice, whatever the numbers of labels and of chunks "
     "read.",
     'all scores, label assignments, numbers of labels and chunk sizes',
     'Tests only check that a file is produced or compare one table.',
     ['ABXpy/analyze.py', 'ABXpy/h5tools/h52np.py'],
     [('collapse by keys', 'ABXpy/analyze.py'),
      ('decoding of the keys', 'ABXpy/analyze.py')],
     over=('inputs', 'configurations'))

prop('C16', 'What is written through a write buffer is what is stored',
     "Whatever the sequence of writes, the data type, the sizes of the writes "
     "and the size of the buffer, the dataset on disk is exactly the "
     "concatenation of the arrays written, once the file is closed. Nothing "
     "is lost, duplicated, reordered or padded.",
     'all sequences of write sizes and values, all buffer sizes',
     'Tests write one array of a convenient size.',
     ['ABXpy/h5tools/np2h5.py'],
     [('buffering', 'ABXpy/h5tools/np2h5.py:NP2H5buffer.write'),
      ('flush on close', 'ABXpy/h5tools/np2h5.py')],
     over=('inputs', 'histories', 'configurations'))

prop('C17', 'Reading through a buffer yields the requested rows in order',
     "Reading a dataset, or a range of its rows, in pieces of any size and "
     "with any buffer size yields exactly these rows, once each and in "
     "order. Reading stops at the end of the range.",
     'all dataset sizes, ranges, piece sizes and buffer sizes',
     'Tests read one dataset with one size.',
     ['ABXpy/h5tools/h52np.py'],
     [('buffering', 'ABXpy/h5tools/h52np.py:H52NPbuffer')],
     over=('inputs', 'histories', 'configurations'))

prop('C18', 'Sorting on disk returns a sorted permutation of the rows',
     "Sorting a dataset on disk by one of its columns leaves a permutation of "
     "its rows in non-decreasing order of that column, whatever the number of "
     "rows, their values and the size of the buffer. The data outside the "
     "sorted dataset is untouched and no temporary file is left.",
     'all values, numbers of rows, columns and buffer sizes',
     'Tests sort one random dataset with a few buffer sizes.',
     ['ABXpy/h5tools/h5_handler.py'],
     [('external merge sort', 'ABXpy/h5tools/h5_handler.py:H5Handler.sort')],
     over=('inputs', 'configurations'))

DB = 'ABXpy/database/database.py'
prop('C19', 'Loading a database keeps items, labels and locations together',
     "After loading an item file, the labels of the i-th item and its file, "
     "onset and offset all come from the same line, in the order of the file, "
     "including when incomplete lines are dropped. Auxiliary files bring "
     "columns whose value for an item is the one listed for its label.",
     'all positions of incomplete lines, all auxiliary tables',
     'Tests load complete databases without auxiliary file.',
     [DB], [('reading, dropping and merging', DB + ':load')],
     over=('inputs', 'configurations'))

prop('C20', 'The same seed gives the same task, whatever the environment',
     "Generating a task twice from the same item file, options and seed gives "
     "the same triplets, pairs and regressors in the same order, including "
     "with a threshold. The result does not depend on the state of the random "
     "generator before the call, nor on the iteration order of hash-based "
     "collections.",
     'all label assignments, draws and iteration orders',
     'One run cannot show that another run gives the same result; tests fix '
     'neither hash seeds nor generator states.',
     [T] + SIDE[:1],
     [('seed set before sampling', T + ':Task.generate_triplets'),
      ('ordered collections', T)],
     over=('inputs', 'histories', 'configurations'))

prop('C21', 'Uniform time warping compares aligned frames, both ways round',
     "The uniform time warping distance between two items is the sum, "
     "over the frames of the longer item, of the distance to the frame of the "
     "shorter item at the same relative time (the mean of both neighbours "
     "where that time falls between two frames). It is "
     "symmetric in its two items and zero between an item and itself, for "
     "symmetric frame distances.",
     'all item lengths and frame distances within bounds',
     'Tests compare a handful of lengths.',
     ['ABXpy/distances/metrics/utw.py'],
     [('alignment', 'ABXpy/distances/metrics/utw.py')])

prop('C22', 'Conversion to a features file keeps every file, in any batches',
     "Converting a folder of feature files writes each file once, under its "
     "own name, with its own times and features, whatever the number and size "
     "of the files and the size of the batches. No file is skipped at the "
     "boundary between two batches.",
     'all numbers and sizes of files',
     'Tests convert two small files.',
     ['ABXpy/misc/any2h5features.py'],
     [('batches', 'ABXpy/misc/any2h5features.py')],
     over=('inputs', 'configurations'))

prop('C23', 'Verification accepts items exactly when the features have their files',
     "The verification of an item file against a features file succeeds "
     "exactly when its header has the columns #file, onset, offset and a "
     "first label starting with #, and every item names a file that the "
     "features contain; it fails otherwise. It does "
     "not depend on the separators, blank lines or order of the item file.",
     'all headers, items and lists of feature files within bounds',
     'There is no test of failures.',
     ['ABXpy/verify.py'], [('check', 'ABXpy/verify.py')])

prop('C24', 'Indexed, fused and raw datasets read back as what was written',
     "Whatever is written to a labelled dataset file, raw, indexed or with "
     "several columns fused into one key, in any number of writes, reads back "
     "with the same values at the same rows and columns once the file is "
     "closed, and opening the file again gives the same datasets, labels and "
     "fused columns. Keys that cannot be represented raise "
     "an error.",
     'all values, sequences of writes and dataset layouts within bounds',
     'Tests write one small table once.',
     ['ABXpy/h5tools/h5io.py'],
     [('indexing and fusing', 'ABXpy/h5tools/h5io.py')],
     over=('inputs', 'histories', 'configurations'))

prop('C25', 'Existing results are never overwritten and faults are reported',
     "Task.generate_triplets, compute_distances and score never change an "
     "output file that already exists (a file with contents of its own, a "
     "finished result): an error is raised and the file keeps its content. If "
     "an access to a HDF5 file fails at any point of generating a task, "
     "computing distances (by one or several jobs), scoring, analyzing, "
     "sorting a dataset or reading and writing through the buffers, the "
     "failure is reported to the caller (never ignored, never a deadlock), or "
     "the result is unchanged by it; a distances file is never marked as done; "
     "and temporary files are removed and closed.",
     'all existing output files, every point where an access can fail',
     'Tests never make I/O fail.',
     [T, 'ABXpy/score.py', 'ABXpy/analyze.py', 'ABXpy/h5tools/np2h5.py',
      'ABXpy/h5tools/h52np.py', 'ABXpy/h5tools/h5io.py',
      'ABXpy/h5tools/h5_handler.py', 'ABXpy/distances/distances.py'],
     [('existence check', T + ':Task.generate_triplets'),
      ('existence check', 'ABXpy/score.py:score'),
      ('existence check',
       'ABXpy/distances/distances.py:create_distance_jobs'),
      ('lock and failures of the jobs',
       'ABXpy/distances/distances.py:run_distance_job'),
      ('cleaning', T + ':Task._generate_pairs'),
      ('cleaning', 'ABXpy/h5tools/h5_handler.py:H5TMP')],
     over=('inputs', 'fault_sequences', 'crash_points'))

prop('C26', 'The results of a task are those its definition gives',
     "For every item file and features file, generating a task, computing the "
     "distances, scoring and analyzing give a table with one row per "
     "combination of on, across and by labels for which valid ABX triplets "
     "that satisfy the filters exist; its count is their number, and its score "
     "is the proportion of them where X is closer to A than to B, ties "
     "counting for one half.",
     'all labels, features, filters and numbers of jobs',
     'The tests compare the chain to stored outputs of one small example.',
     [T, 'ABXpy/distances/distances.py', 'ABXpy/score.py', 'ABXpy/analyze.py'],
     [('triplets and pairs', T + ':Task.generate_triplets'),
      ('distances', 'ABXpy/distances/distances.py:compute_distances'),
      ('scores', 'ABXpy/score.py:score'),
      ('results', 'ABXpy/analyze.py:analyze')],
     over=('inputs', 'configurations'))

prop('C27', 'Samples without replacement are uniform',
     "When the draws of the random generator are independent and uniform, "
     "sampling n out of N items without replacement gives every set of n "
     "items with the same probability: no item is favoured by its position, "
     "and no item is left out.",
     'all sizes within bounds, all draws',
     'Tests compare the statistics of a few samples with wide tolerances.',
     ['ABXpy/sampling/sampler.py'],
     [('sequential sampling', 'ABXpy/sampling/sampler.py:Knuth_sampling'),
      ('rejection sampling', 'ABXpy/sampling/sampler.py:rejection_sampling')],
     over=('inputs',))

prop('C28', 'The commands compute what their options ask for',
     "Running abx-task, abx-distance, abx-score and abx-analyze one after the "
     "other gives the results that the definition gives for their options: "
     "every on, across, by and filter option is taken into account, the "
     "distances are those of the distance, group and normalization asked for "
     "(also a normalization of 0, and a distance in a module given by its "
     "path), whatever the number of jobs. With a threshold and a seed (also 0) "
     "abx-task writes the same task as Task.generate_triplets with the same "
     "arguments. Existing outputs are replaced; a command without its "
     "required options fails, and --stats-only, a missing normalization and "
     "an analysis of files that do not exist leave existing files as they "
     "are.",
     'all items and features within bounds, the listed combinations of '
     'options in any order, new and existing outputs',
     'Tests call the functions; the examples run the commands with one set of '
     'options, and compare nothing.',
     ['ABXpy/task.py', 'ABXpy/distance.py', 'ABXpy/score.py',
      'ABXpy/analyze.py'],
     [('options of the task', 'ABXpy/task.py:parse_arguments'),
      ('generation', 'ABXpy/task.py:main'),
      ('choice of the distance', 'ABXpy/distance.py:run'),
      ('normalization and outputs', 'ABXpy/distance.py:main'),
      ('outputs', 'ABXpy/score.py:main'),
      ('inputs and outputs', 'ABXpy/analyze.py:main')],
     over=('inputs',))

TECH = 'bounded symbolic execution of the source with z3 (SMT)'
NOTE = ('Every path of the harness through the current source, within the '
        'stated bounds, with an SMT query for each branch and assertion; '
        'counterexamples are replayed on the real code before they are '
        'reported, and a sample of path witnesses is replayed to validate the '
        'encoding. Trusts z3, the engine and its models of numpy/h5py/pandas '
        'operations. Bounds: ')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in P:
        i = p['id']
        if os.path.exists(os.path.join(HERE, 'checks', i + '.py')):
            m = importlib.import_module('checks.' + i)
            checks.append({
                'property': i,
                'quick_cmd': './run.sh %s --tier quick' % i,
                'thorough_cmd': './run.sh %s --tier thorough' % i,
                'evidence_file': 'evidence/%s.json' % i,
                'technique': getattr(m, 'TECHNIQUE', TECH),
                'level': m.LEVEL,
                'level_note': getattr(m, 'NOTE', NOTE) + m.BOUNDS
                + '. Outside the bounds: ' + m.OUTSIDE + '.'})
        else:
            na.append({'property': i, 'reason': NA.get(
                i, 'no check has been built yet')})
    man = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
           'not_applicable': na}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


NA = {}

if __name__ == '__main__':
    main()

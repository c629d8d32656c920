"""Writes known_findings.json (run by hand, committed)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = {
 'store triplets in a type wide enough': ('C08', "triplets of a by block with 128 to 255 items were stored in a signed 8-bit type and came out negative"),
 'do not truncate the positions sampled': ('C05', "with a threshold, positions sampled in a block of more than 256 triplets were truncated to 8 bits: duplicates, and triplets outside their group"),
 'sort the regressors on A': ('C04', "regressors on A were not permuted like the triplets"),
 'look up on/across/by values by label': ('C02', "on/across/by values were looked up by position instead of label: filters and regressors used the values of another item"),
 'ignore by blocks left empty': ('C02', "a generic filter that empties a by block made the task crash"),
 'make the number of levels computable': ('C07', "computing the number of levels crashed"),
 'keep items and their location aligned': ('C19', "when a line with missing labels is dropped, items and locations were no longer aligned"),
 'load auxiliary databases': ('C19', "loading an auxiliary database crashed"),
 'accept the _AX extension': ('C02', "filters naming on columns with _AX and across columns with _AB were rejected"),
 'provide the by columns': ('C02', "a generic filter on a by column crashed"),
 'make columns usable as filters': ('C02', "a bare column name used as a filter crashed"),
 'keep the limits of the distance jobs integer': ('C09', "limits of the distance jobs were floats with several cpus"),
 'mark the distances as done': ('C10', "the done flag was only written with several cpus"),
 'encode and decode label combinations': ('C15', "label combinations were encoded in floats: wrong labels and merged rows beyond 2**53 combinations"),
 'detect regressor combinations': ('C08', "regressor combinations beyond 64 bits wrapped silently"),
 'keep the keys of regressor combinations exact': ('C08', "keys of regressor combinations beyond 2**53 were rounded, so that the threshold was applied to several groups at once"),
 'make IncrementalSampler iterable': ('C06', "iterating over the incremental sampler raised TypeError on Python 3"),
 'do not modify the features': ('C13', "computing a Kullback-Leibler distance modified the features in place"),
 'do not create missing features files': ('C23', "verifying items against a features file that does not exist created it, empty"),
 'verify features files in the current format': ('C23', "verification failed for every features file written by h5features 1.1 or later, which name the list of files 'items'"),
 'accept labels that are not ASCII': ('C04', "labels or column names that are not ASCII (such as phonetic symbols) made the task crash when its regressors were stored"),
 'keep the shape of the JS': ('C13', "the Jensen-Shannon and Hellinger distances of one frame to one frame were not a 1 x 1 table, so that DTW failed on them"),
 'make the order of the default regressors': ('C20', "the order of the default regressors depended on the hash seed"),
 'accept tabs and blank lines': ('C23', "verification of an item file with tabs or blank lines failed"),
 'allow the score file to be omitted': ('C14', "omitting the score file on the command line crashed"),
 'default name of the score file': ('C14', "the default score file name was wrong when the distance file is in a folder"),
 'store the names of raw and fused': ('C24', "names of raw and fused datasets could not be written"),
 'write raw datasets in the group': ('C24', "raw datasets were written outside the group of the object"),
 'write to H5IO from an iterator': ('C24', "writing from an iterator failed on Python 3"),
 'name of the key weights': ('C24', "loading a file with fused datasets failed (key_weights)"),
 'detect fused datasets': ('C24', "fused keys beyond 64 bits wrapped silently"),
 'find exactly the ties of the uniform': ('C21', "ties of the alignment were missed because of float rounding (e.g. 14 and 25 frames)"),
 'find the index of datasets that share': ('C24', "datasets sharing an index could not be written"),
 'write the computed regressors of a task': ('C04', "a task with a regressor computed by a function crashed when its first on/across block had no triplet"),
 'release the lock when a distance job fails': ('C25', "when a distance job failed while it held the lock, the other jobs waited for it forever and the failure was never reported"),
 'leave an existing distances file as it is': ('C25', "computing distances into a finished distances file marked it as not done before refusing"),
 'remove the temporary folder when its file': ('C25', "the temporary folder of a sort was left when its file could not be created"),
 'close the temporary file of the pairs': ('C25', "each task generated left one file open"),
 'let nested functions of a script see': ('C02', "the lambdas, generators and functions of a filter or regressor script could not see its columns, variables and imports (NameError)"),
 'number of levels of a task with several': ('C07', "number of levels wrong with several across columns"),
    'by labels that contain': (
        'C26', "by labels 'a' and 'a/b', '/a' and 'a', or '.': an error or "
        "no results, as they named nested groups of the task file"),
    'abx-task --stats-only does not remove': ('C28', "abx-task --stats-only removed the task file it was given as output, and wrote none"),
    'abx-distance refuses a missing normalization': ('C28', "abx-distance without a normalization removed the existing distances before it refused to run"),
    'abx-distance accepts a distance module': ('C28', "a distance module given by a path with dots (./dir/module.function, ../module.function) could not be loaded"),
}


KNOWN = []

log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse',
                               '--format=%h %s', '8b5dec2..HEAD'], text=True)
fixed = []
for line in log.splitlines():
    h, s = line.split(' ', 1)
    assert s.startswith('fix: '), s
    m = [v for k, v in FIXED.items() if s[5:].startswith(k)]
    assert len(m) == 1, (s, m)
    fixed.append('fixed: property=%s %s %s' % (m[0][0], h, m[0][1]))
json.dump({'known': KNOWN, 'fixed': fixed},
          open(os.path.join(HERE, 'known_findings.json'), 'w'), indent=1)

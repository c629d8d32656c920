"""Runs harness cases against the real, unpatched code (a fresh process)."""
import json
import os
import shutil
import signal
import sys
import tempfile
import traceback
import warnings


class Timeout(BaseException):
    pass


def _alarm(sig, frame):
    raise Timeout()


def install_dtw():
    d = os.environ.get('ABX_DTW_DIR')
    if not d:
        return
    import importlib.machinery
    import importlib.util

    class Finder(object):
        @staticmethod
        def find_spec(name, path=None, target=None):
            if name != 'ABXpy.distances.metrics.dtw':
                return None
            for f in os.listdir(d):
                if f.startswith('dtw.') and f.endswith('.so'):
                    p = os.path.join(d, f)
                    return importlib.util.spec_from_file_location(
                        name, p, loader=importlib.machinery.
                        ExtensionFileLoader(name, p))
            return None
    sys.meta_path.insert(0, Finder)


def main(inp, out):
    with open(inp) as f:
        spec = json.load(f)
    repo = os.environ.get('ABX_REPO', '/repo')
    sys.path.insert(0, repo)
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    install_dtw()
    import numpy as np
    np.seterr(all='ignore')
    from abxsym import ctx, core, runner
    chk = runner.load_check(spec['property'])
    signal.signal(signal.SIGALRM, _alarm)
    devnull = open(os.devnull, 'w')
    o = open(out, 'a')
    saved_rng = {n: getattr(np.random, n) for n in ctx.RealRng.NAMES}
    for case in spec['cases']:
        h = [x for x in chk.HARNESSES if x.name == case['harness']][0]
        for n, v in saved_rng.items():
            setattr(np.random, n, v)
        d = tempfile.mkdtemp(dir=spec['scratch'])
        r = {'status': 'done', 'failures': [], 'obs': {}, 'error': ''}
        c = ctx.RealCtx(case['inputs'] or {}, d)
        c.case = {'property': spec['property'], 'cases': [case],
                  'timeout': spec['timeout']}
        so, se = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = devnull
        signal.alarm(int(spec['timeout']))
        try:
            h.fn(c, **case['cfg'])
        except core.PathAbort:
            r['status'] = 'abort'
        except ctx.CheckFailed:
            pass
        except ctx.TwiceDone as e:
            r['status'] = 'twice'
            twice = e.args[0]
        except Timeout:
            r['status'] = 'hang'
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            inside = [f for f in tb if f.filename.startswith(repo + '/')]
            w = inside[-1] if inside else tb[-1]
            r['status'] = 'raise'
            r['error'] = '%s: %s (%s in %s)' % (
                type(e).__name__, str(e)[:300],
                os.path.basename(w.filename), w.name)
            if os.environ.get('ABX_DEBUG'):
                r['error'] += '\n' + traceback.format_exc()
        finally:
            signal.alarm(0)
            sys.stdout, sys.stderr = so, se
            c.h5py.File = c._h5file
        r['failures'] = c.failures
        try:
            r['obs'] = {k: ctx.flatten_obs(v) for k, v in c.observed.items()}
        except Exception as e:
            r['obs'] = {'error': str(e)}
        if r['status'] == 'twice':
            r['obs'] = twice
        if r['status'] == 'raise' and c.failures:
            r['failures'] = c.failures
        shutil.rmtree(d, ignore_errors=True)
        o.write(json.dumps(r) + '\n')
        o.flush()
    o.close()


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2])

"""Runs the check of each planted change against a patched scratch copy."""
import json, os, subprocess, sys, shutil, tempfile, time
ids = sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
for sid in ids:
    d = '/verif/seeded/' + sid
    pid = json.load(open(d + '/meta.json'))['property']
    if not os.path.exists('/verif/checks/%s.py' % pid):
        print(sid, 'no check'); continue
    w = tempfile.mkdtemp(prefix='try_', dir='/tmp')
    try:
        subprocess.check_call(['cp', '-a', '/repo', w + '/repo'])
        subprocess.check_call(['git', '-C', w + '/repo', 'apply', d + '/patch.diff'])
        t = time.time()
        p = subprocess.run(['./run.sh', pid], cwd='/verif', text=True,
                           env=dict(os.environ, ABX_REPO=w + '/repo'),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        print(sid, 'CAUGHT' if p.returncode == 1 else 'MISSED', p.returncode,
              '%.0f s' % (time.time() - t))
        print('   ', '\n    '.join(p.stdout.strip().splitlines()[-4:])[:700], flush=True)
    finally:
        shutil.rmtree(w)

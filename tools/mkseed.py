"""Creates and validates a planted change in a scratch copy of /repo.

usage: mkseed.py ID PROPERTY SPEC   (SPEC: python file defining EDITS =
[(file, old, new)], DEMO (text of demo.py), NEEDS, BREAKS)
"""
import json, os, subprocess, sys, shutil, tempfile
sid, pid, spec = sys.argv[1:4]
ns = {}
exec(open(spec).read(), ns)
dst = '/verif/seeded/' + sid
w = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
r = w + '/repo'
env = dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE='1',
           PYTHONHASHSEED='0', PATH='/opt/venv/bin:' + os.environ['PATH'])


def run(cmd, **k):
    return subprocess.run(cmd, cwd=r, env=env, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **k)


try:
    subprocess.check_call(['cp', '-a', '/repo', r])
    assert not run(['git', 'status', '--porcelain']).stdout.strip()
    os.makedirs(dst, exist_ok=True)
    open(dst + '/demo.py', 'w').write(ns['DEMO'].lstrip())
    open(dst + '/demo.sh', 'w').write(
        '#!/bin/bash\nexport PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1\n'
        'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(dst + '/demo.sh', 0o755)
    json.dump({'property': pid, 'needs': ns['NEEDS'],
               'what_it_breaks': ns['BREAKS']},
              open(dst + '/meta.json', 'w'), indent=1)
    d0 = run(['bash', dst + '/demo.sh'], timeout=300)
    for f, old, new in ns['EDITS']:
        s = open(r + '/' + f, newline='').read()
        if '\r\n' in s:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        assert s.count(old) == 1, (f, s.count(old), old)
        open(r + '/' + f, 'w', newline='').write(s.replace(old, new))
    diff = subprocess.run(['git', 'diff'], cwd=r, stdout=subprocess.PIPE,
                          check=True).stdout
    open(dst + '/patch.diff', 'wb').write(diff)
    if any(f.endswith('.pyx') for f, _, _ in ns['EDITS']):
        b = run(['bash', '-c', 'rm -rf build ABXpy/distances/metrics/*.so '
                 'ABXpy/distances/metrics/dtw/*.c; '
                 'python setup.py -q build_ext --inplace'])
        assert b.returncode == 0, b.stdout[-2000:]
    d1 = run(['bash', dst + '/demo.sh'], timeout=300)
    t = run(['python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
             '--no-cov', '--timeout=300', '-rA', 'test'])
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    bad = []
    for s in stable:
        m, n = s.split('::')
        key = 'PASSED %s.py::%s' % (m.replace('.', '/'), n)
        if key not in t.stdout:
            bad.append(s)
    ok = d0.returncode == 0 and d1.returncode != 0 and not bad
    print(sid, 'OK' if ok else 'BAD', 'demo', d0.returncode, d1.returncode,
          'failing tests', bad)
    if not ok:
        print(d0.stdout[-1500:], '\n----\n', d1.stdout[-1500:])
        if bad:
            print(t.stdout[-1500:])
        if '--keep' not in sys.argv:
            shutil.rmtree(dst)
        sys.exit(1)
finally:
    shutil.rmtree(w)

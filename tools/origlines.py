"""Which planted changes touch lines of the original repository?"""
import os, re, subprocess, sys
BASE = sys.argv[1] if len(sys.argv) > 1 else '8b5dec2'
D = '/verif/seeded/'
for s in sorted(os.listdir(D)):
    f = None; n = 0; orig = new = 0
    for l in open(D + s + '/patch.diff'):
        if l.startswith('--- a/'):
            f = l[6:].strip()
            bl = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-l', f], text=True, stdout=subprocess.PIPE).stdout.split('\n')
        elif l.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            h = bl[n - 1].split()[0].lstrip('^')
            if subprocess.run(['git', '-C', '/repo', 'merge-base', '--is-ancestor', h, BASE]).returncode == 0: orig += 1
            else: new += 1
            n += 1
        elif l.startswith(' '):
            n += 1
    print(s, 'original lines removed:', orig, 'own:', new)

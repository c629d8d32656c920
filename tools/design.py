"""Writes DESIGN.md from tools/design_head.md, tools/design_how.md (one
section per property), tools/design_tail.md, the checks and the seeds."""
import importlib, json, os, re, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def read(n):
    with open(os.path.join(HERE, 'tools', n)) as f:
        return f.read()


def wrap(s, first='', rest='  '):
    import textwrap
    return '\n'.join(textwrap.wrap(s, 79, initial_indent=first,
                                   subsequent_indent=rest,
                                   break_long_words=False))


props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
how = dict(re.findall(r'^## (C\d\d)\n(.*?)(?=^## |\Z)', read('design_how.md'),
                      re.M | re.S))
out = [read('design_head.md').rstrip(), '', '## Property by property', '']
for p in props:
    m = importlib.import_module('checks.' + p['id'])
    out += ['### %s. %s' % (p['id'], p['title']), '',
            wrap(how[p['id']].strip().replace('\n', ' '), '', ''), '',
            wrap('Bounds: ' + m.BOUNDS + '.', '- '),
            wrap('Outside: ' + m.OUTSIDE + '.', '- ')]
    if m.STUBS:
        out.append(wrap('Models: ' + m.STUBS + '.', '- '))
    if m.ASSUMPTIONS:
        out.append(wrap('Assumes: ' + '; '.join(m.ASSUMPTIONS) + '.', '- '))
    out.append(wrap('Harnesses (configurations quick/thorough): ' + ', '.join(
        '%s %d/%d' % (h.name, len(h.quick), len(h.thorough))
        for h in m.HARNESSES) + '.', '- '))
    out.append('')
out += ['## Defects found and repaired', '',
        'All are `fix:` commits of /repo, each with the property whose check '
        'reports it on', 'the tree before the commit '
        '(`known_findings.json` has the same list).', '']
for l in json.load(open(os.path.join(HERE, 'known_findings.json')))['fixed']:
    q = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    out.append(wrap('%s %s: %s' % q.groups(), '- '))
out += ['', read('design_tail.md').rstrip(), '', '## Planted changes', '',
        'Each is in `seeded/`; the check of its property reports it (`*`: '
        'missed when it', 'was planted, the check was strengthened '
        'afterwards).', '']
missed = set(read('missed.txt').split())
for s in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    d = json.load(open(os.path.join(HERE, 'seeded', s, 'meta.json')))
    out.append(wrap('%s%s (%s): %s. Needs %s.' % (
        s, '*' if s in missed else '', d['property'], d['what_it_breaks'],
        d['needs']), '- '))
with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(out) + '\n')

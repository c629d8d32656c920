"""Verification of an item file against a features file."""
import os

from abxsym.runner import Harness

LEVEL = 'model_checking'
BOUNDS = ('2 items (3 in the thorough tier) that name any of 5 files, one of '
          'them given once or twice, any subset of 3 (4) files in the '
          'features; any of 12 headers; any separators, blank lines and last '
          'line; features files of both generations, missing or without '
          'features')
OUTSIDE = ('more items and files; other headers; onsets and offsets, which '
           'the verification does not look at')
STUBS = 'h5py is an in-memory model'
ASSUMPTIONS = []
BUDGET = {'quick': 150, 'thorough': 1800}

FILES = ['f1', 'f10', 'f', '\u00e9-1', 'F1']
HEADERS = [
    ('#file onset offset #phone', True),
    ('#file onset offset #phone talker', True),
    ('#file\tonset offset   #phone\ttalker other', True),
    ('#file onset offset', False), ('', False), ('#file onset', False),
    ('file onset offset #phone', False), ('#file offset onset #phone', False),
    ('#file onset offset phone', False), ('#files onset offset #phone', False),
    ('#file onset offset phone #talker', False),
    ('#file begin offset #phone', False),
]


def features(ctx, names, key, name='data.features'):
    p = ctx.path(name)
    text = ctx.h5py.special_dtype(vlen=str)
    with ctx.h5py.File(p, 'w') as fh:
        g = fh.create_group('features')
        g.create_dataset(key, (len(names),), dtype=text)
        if names:
            g[key][:] = names
    return p


def verdict(ctx, item, feats):
    m = ctx.load('ABXpy.verify')
    try:
        m.check(item, feats)
    except (AssertionError, KeyError, IOError, ValueError):
        return False
    return True


def judge(ctx, item, feats, expected):
    before = open(item).read()
    got = verdict(ctx, item, feats)
    ctx.check(got == expected, '%s although the files are %s' % (
        'accepted' if got else 'refused', 'consistent' if expected else
        'not consistent'))
    ctx.check(open(item).read() == before, 'the item file was modified')
    ctx.observe('ok', got)


def items(ctx, n, known):
    """any items, any features"""
    sub = [f for i, f in enumerate(FILES[:known])
           if ctx.choose('has%d' % i, 2)]
    if len(sub) > 1 and ctx.choose('reverse', 2):
        sub = sub[::-1]
    it = [FILES[ctx.choose('item%d' % i, len(FILES))] for i in range(n)]
    key = ['items', 'files'][ctx.choose('key', 2)]
    p = ctx.path('data.item')
    with open(p, 'w') as f:
        f.write('#file onset offset #phone talker\n')
        for i, v in enumerate(it):
            f.write('%s %s %s %s t\n' % (v, i, i + 1, FILES[i]))
    judge(ctx, p, features(ctx, sub, key), all(v in sub for v in it))


SEPS = [' ', '\t', ' \t  ']
ENDS = ['\n', ' \n', '\n\n', '\n \t \n', '\r\n']


def layout(ctx, n):
    """separators and blank lines do not matter"""
    bad = ctx.choose('bad', n + 1)
    out = '#file onset offset #phone' + ENDS[ctx.choose('end', 4)]
    for i in range(n):
        s = SEPS[ctx.choose('sep%d' % i, 3)]
        e = ENDS[ctx.choose('end%d' % i, 5)]
        if i == n - 1 and ctx.choose('last', 2):
            e = ''
        if ctx.choose('lead%d' % i, 2):
            out += s
        out += s.join(['f9' if i == bad else 'f%d' % i, '0', '1', 'a']) + e
    p = ctx.path('data.item')
    with open(p, 'w', newline='') as f:
        f.write(out)
    judge(ctx, p, features(ctx, ['f%d' % i for i in range(n)], 'items'),
          bad == n)


def headers(ctx):
    h, ok = HEADERS[ctx.choose('header', len(HEADERS))]
    p = ctx.path('data.item')
    body = ctx.choose('body', 3)
    with open(p, 'w') as f:
        f.write(h + '\n')
        f.write(['', 'f1 0 1 a\n', 'f2 0 1 a\n'][body])
    judge(ctx, p, features(ctx, ['f1'], 'items'), ok and body != 2)


def missing(ctx):
    """there is no features file, or it has no features"""
    p = ctx.path('data.item')
    with open(p, 'w') as f:
        f.write('#file onset offset #phone\n')
        f.write(['', 'f1 0 1 a\n'][ctx.choose('body', 2)])
    q = ctx.path('data.features')
    if ctx.choose('how', 2):
        with ctx.h5py.File(q, 'w') as fh:
            fh.create_group('other')
    before = sorted(os.listdir(ctx.dir))
    judge(ctx, p, q, False)
    ctx.check(sorted(os.listdir(ctx.dir)) == before,
              'the verification created a file')


HARNESSES = [
    Harness('items', items, quick=[dict(n=2, known=3)],
            thorough=[dict(n=3, known=4)]),
    Harness('layout', layout, quick=[dict(n=2)], thorough=[dict(n=3)]),
    Harness('headers', headers, quick=[dict()]),
    Harness('missing', missing, quick=[dict()]),
]

"""Labelled datasets read back as what was written."""
from abxsym.runner import Harness

LEVEL = 'model_checking'
BOUNDS = ('raw, indexed and fused datasets of 1 or 2 columns, in any '
          'combination among seven layouts, in the root or a group of the '
          'file, 1 to 3 writes of 1 or 2 rows with arbitrary values (labels '
          'or indices), given by name, in order or by an iterator, buffers '
          'of 1 row to all; 2 to 65537 labels and up to 6 fused columns, on '
          'both sides of the limits of the integer types; datasets of up to 256 '
          'columns')
OUTSIDE = ('more rows; raw data of a type other than that of the first '
           'write; indices outside their labels')
STUBS = ('h5py is an in-memory model; default sizes of the I/O buffers are '
         'replaced by those of the configuration')
ASSUMPTIONS = ['labels of an index are distinct']
BUDGET = {'quick': 150, 'thorough': 1800}
M = 'ABXpy.h5tools.h5io'

TALKERS = ['t1', 'zo\u00eb', 't3']
AGES = [30, 7, 12]
TONGUES = ['French', 'English']
# datasets, indexes, fused, columns of each dataset
LAYOUTS = [
    (['r1', 'r2'], None, None, {}),
    (['a', 'b'], {'a': TALKERS, 'b': TONGUES}, None, {}),
    (['r1', 'a'], {'a': AGES}, None, {'r1': 2}),
    ({'u': 'talker', 'v': 'talker', 'w': 'tongue', 'r1': None},
     {'talker': TALKERS, 'tongue': TONGUES}, None, {'u': 2}),
    ({'u': 'talker', 'v': 'tongue'}, {'talker': TALKERS, 'tongue': TONGUES},
     {'key': ['u', 'v']}, {}),
    ({'u': 'talker', 'v': 'tongue', 'w': 'age', 'r1': None},
     {'talker': TALKERS, 'tongue': TONGUES, 'age': AGES},
     {'key': ['w', 'u']}, {'w': 2}),
    ({'u': 'talker', 'v': 'talker', 'w': 'tongue', 'z': 'tongue'},
     {'talker': TALKERS, 'tongue': TONGUES},
     {'key': ['v', 'u'], 'other': ['z', 'w']}, {}),
]


def index_of(layout, name):
    d, ix = layout[0], layout[1] or {}
    if isinstance(d, dict):
        return ix[d[name]] if d[name] is not None else None
    return ix.get(name)


def rows(ctx, layout, name, w, n, labels):
    """n rows of dataset name in write w: (what is given, indices or
    values)"""
    ix = index_of(layout, name)
    dims = layout[3].get(name, 1)
    out, flat = [], []
    for i in range(n):
        r, s = [], []
        for j in range(dims):
            nm = '%s_%d_%d_%d' % (name, w, i, j)
            if ix is None:
                v = ctx.int(nm, -2 ** 40, 2 ** 40) if name == 'r1' else \
                    ctx.real(nm, -9, 9)
            elif labels:
                v = ctx.choose(nm, len(ix))
            else:
                v = ctx.int(nm, 0, len(ix) - 1)
            r.append(ix[v] if ix is not None and labels else v)
            s.append(v)
        out.append(r)
        flat.append(s)
    if dims == 1:
        out = [r[0] for r in out]
    elif ix is None or not labels:
        out = ctx.np.array(out)
    return out, flat


def check_file(ctx, path, group, layout, want):
    """want: {dataset: rows}"""
    ds, ixs, fused, dims = layout
    names = list(ds)
    indexed = [n for n in names if index_of(layout, n) is not None]
    raw = [n for n in names if n not in indexed]
    members = [m for v in (fused or {}).values() for m in v]
    plain = [n for n in indexed if n not in members]
    total = len(want[names[0]])
    bad = []

    def text(v):
        return v if isinstance(v, str) else v.decode('utf-8')
    with ctx.h5py.File(path, 'r') as fh:
        g = fh[group]
        for n in raw:
            d = g[n][...]
            ok = tuple(d.shape) == (total, dims.get(n, 1))
            ctx.check(ok, 'raw dataset %s of shape %s' % (n, tuple(d.shape)))
            if ok:
                bad += [ctx.Not(d[i, j] == v) for i, r in enumerate(want[n])
                        for j, v in enumerate(r)]
        if plain:
            order = [text(v) for v in g['non_fused_datasets'][...]]
            ctx.check(sorted(order) == sorted(plain),
                      'indexed datasets %s' % order)
            ends = [int(ctx.value(v)) for v in g['indexed_cumudims'][...]]
            d = g['indexed_data'][...]
            w = sum(dims.get(n, 1) for n in plain)
            ok = tuple(d.shape) == (total, w) and sorted(order) == \
                sorted(plain) and len(ends) == len(order)
            ctx.check(ok, 'indexed data of shape %s for %s, ends %s' % (
                tuple(d.shape), order, ends))
            if ok:
                lo = 0
                for n, hi in zip(order, ends):
                    ctx.check(hi - lo == dims.get(n, 1),
                              'columns %d to %d for %s' % (lo, hi, n))
                    bad += [ctx.Not(d[i, lo + j] == v) for i, r in enumerate(
                        want[n]) for j, v in enumerate(r) if lo + j < hi]
                    lo = hi
        for key in fused or ():
            h = g['fused'][key]
            order = [text(v) for v in h['datasets'][...]]
            ctx.check(sorted(order) == sorted(fused[key]),
                      'members of %s: %s' % (key, order))
            ws = [int(ctx.value(v)) for v in h['key_weights'][...]]
            ls = [int(ctx.value(v)) for v in h['nb_levels'][...]]
            ctx.check(ls == [len(index_of(layout, n)) for n in order],
                      'levels of %s: %s' % (order, ls))
            d = g[key][...]
            cols = [(n, j) for n in order for j in range(dims.get(n, 1))]
            ok = tuple(d.shape) == (total, 1) and len(ws) == len(cols)
            ctx.check(ok, 'keys of shape %s, %d weights for %d columns' % (
                tuple(d.shape), len(ws), len(cols)))
            if ok:
                for i in range(total):
                    v = d[i, 0]
                    if not ctx.is_symbolic(v):
                        v = int(v)
                    for (n, j), w in zip(cols, ws):
                        ctx.check(w > 0, 'the weight of a key is %d' % w)
                        got = v // max(w, 1) % len(index_of(layout, n))
                        bad.append(ctx.Not(got == want[n][i][j]))
        for n, v in (ixs or {}).items():
            got = g['indexes'][n][...]
            ctx.check(len(got) == len(v), 'index %s has %d labels' % (
                n, len(got)))
            if len(v) > 1000:
                got, v = [got[0], got[-1]], [v[0], v[-1]]
            got = list(got)
            ctx.check(len(got) == len(v) and all(
                (text(a) if isinstance(b, str) else a) == b
                for a, b in zip(got, v)), 'index %s is %s' % (n, got[:9]))
    ctx.check(ctx.Not(ctx.Or(bad)), 'a value is not the one written')


def check_again(ctx, path, group, layout):
    """opened again, the object describes the same layout"""
    m = ctx.load(M)
    ds, ixs, fused, dims = layout
    h = m.H5IO(path, group=group)
    names = list(ds)
    indexed = [n for n in names if index_of(layout, n) is not None]
    ctx.check(list(h.managed_datasets) == names, 'managed datasets %s' %
              list(h.managed_datasets))
    ctx.check(sorted(h.raw_datasets) == sorted(
        n for n in names if n not in indexed), 'raw datasets %s' %
        list(h.raw_datasets))
    ctx.check(sorted(h.indexed_datasets) == sorted(indexed),
              'indexed datasets %s' % list(h.indexed_datasets))
    for n in indexed:
        k = list(h.indexed_datasets).index(n)
        got = h.indexes[h.indexed_datasets_indexes[k]]
        ctx.check(list(got) == list(index_of(layout, n)),
                  'index of %s: %s' % (n, list(got)[:9]))
    ctx.check(sorted(h.fused_datasets) == sorted(fused or {}),
              'fused datasets %s' % list(h.fused_datasets))
    for k, v in (fused or {}).items():
        ctx.check(list(h.fused_members[k]) == v, 'members of %s' % k)
    ctx.check(not h.is_empty, 'the file is said to be empty')
    for d in (names, {n: None for n in names}):
        try:
            m.H5IO(path, d, ixs if d is names else {}, None, group=group)
            ctx.fail('an existing file was created again')
        except Exception:
            pass


def roundtrip(ctx, layouts, writes, sizes, kbs=(None,), hows=3, groups=2,
              labels=None):
    layout = LAYOUTS[layouts[ctx.choose('layout', len(layouts))]]
    names = list(layout[0])
    group = ['/', '/g/h/'][ctx.choose('group', groups)]
    how = ctx.choose('how', hows)
    if labels is None:
        # there can only be one column of labels
        labels = bool(layout[1]) and all(
            n == 'r1' or v == 1 for n, v in layout[3].items()) and \
            bool(ctx.choose('labels', 2))
    kb = kbs[ctx.choose('kb', len(kbs))]
    nw = 1 + ctx.choose('writes', writes)
    data, want = [], {n: [] for n in names}
    for w in range(nw):
        k = sizes[w % len(sizes)]
        d = {}
        for n in names:
            d[n], flat = rows(ctx, layout, n, w, k, labels)
            want[n] += flat
        data.append(d)

    def shape(d):
        return d if how == 0 else [d[n] for n in names] if how == 1 else d
    m = ctx.load(M)
    p = ctx.path('out.h5')

    def go():
        with m.H5IO(p, layout[0], layout[1], layout[2], group=group) as h:
            if how == 2:
                h.write(iter(data), iterate=True, indexed=not labels)
            else:
                for d in data:
                    h.write(shape(d), indexed=not labels)
    if kb:
        with ctx.small_buffers(kb, ('ABXpy.h5tools.np2h5',)):
            go()
    else:
        go()
    check_file(ctx, p, group, layout, want)
    check_again(ctx, p, group, layout)
    ctx.observe('rows', len(want[names[0]]))


def limits(ctx, cases):
    """numbers of labels at the limits of the integer types"""
    dims, fuse = cases[ctx.choose('case', len(cases))]
    names = ['c%d' % i for i in range(len(dims))]
    ixs = {'i%d' % d: list(range(100, 100 + d)) for d in dims}
    layout = ({n: 'i%d' % d for n, d in zip(names, dims)}, ixs,
              {'key': names} if fuse else None, {})
    total = 1
    for d in dims:
        total *= d
    want, data = {}, {}
    for n, d in zip(names, dims):
        v = [d - 1, 0, d - 2, ctx.int('x' + n, max(d - 3, 0), d - 1)
             if len(dims) < 4 else d - 1]
        data[n] = v
        want[n] = [[u] for u in v]
    m = ctx.load(M)
    p = ctx.path('out.h5')
    try:
        with m.H5IO(p, *layout[:3]) as h:
            h.write(data, indexed=True)
    except (ValueError, OverflowError):
        ctx.check(fuse and total > 2 ** 64, '%d combinations are refused' %
                  total)
        return
    check_file(ctx, p, '/', layout, want)


def wide(ctx, ns):
    """datasets with many columns"""
    n = ns[ctx.choose('n', len(ns))]
    layout = ({'u': 'talker', 'v': 'tongue', 'w': 'talker', 'r1': None},
              {'talker': TALKERS, 'tongue': TONGUES}, None, {'u': n, 'w': 3})
    data, want = {}, {}
    for k in layout[0]:
        ix = index_of(layout, k)
        d = [[(i * j + i) % (len(ix) if ix else 7) for j in range(
            layout[3].get(k, 1))] for i in range(2)]
        d[1][-1] = ctx.int('x' + k, 0, len(ix) - 1 if ix else 7)
        want[k] = d
        data[k] = ctx.np.array(d) if k in layout[3] else [r[0] for r in d]
    m = ctx.load(M)
    p = ctx.path('out.h5')
    with m.H5IO(p, *layout[:3]) as h:
        h.write(data, indexed=True)
    check_file(ctx, p, '/', layout, want)


def refused(ctx):
    """what cannot be represented is an error"""
    m = ctx.load(M)
    k = ctx.choose('what', 5)
    p = ctx.path('out.h5')
    ix = {'a': ['x', 'y'], 'b': [5, 7]}
    try:
        if k == 0:
            m.H5IO(p, ['a'], ix)
        elif k == 1:
            m.H5IO(p, {'a': 'a', 'b': None}, ix)
        elif k == 2:
            m.H5IO(p, ['a', 'b', 'r'], ix, {'key': ['a', 'r']})
        else:
            with m.H5IO(p, ['a', 'b'], ix) as h:
                h.write({'a': ['x', 'y' if k == 3 else 'z'], 'b': [5, 7]}
                        if k == 4 else {'a': ['x']})
        ctx.fail('accepted')
    except (ValueError, IOError):
        ctx.check(True, 'refused')
    ctx.observe('k', k)


CASES = [([2, 257], 0), ([3, 65537, 2], 0), ([255], 0), ([256], 0), ([257], 0), ([256, 2], 0), ([65536], 0),
         ([65537, 3], 0), ([15, 17], 1), ([16, 16], 1), ([16, 17], 1),
         ([255, 257], 1), ([256, 256], 1), ([256, 257], 1),
         ([65536, 65536], 1), ([65537, 65536], 1), ([65536] * 4, 1),
         ([65535, 65537, 65536, 65537], 1), ([65537] * 4, 1),
         ([256] * 4, 1)]
HARNESSES = [
    Harness('roundtrip', roundtrip,
            quick=[dict(layouts=list(range(7)), writes=2, sizes=[1, 2],
                        hows=1, labels=False),
                   dict(layouts=[1, 2, 4], writes=1, sizes=[2], hows=2,
                        groups=1, labels=True),
                   dict(layouts=[2, 5], writes=3, sizes=[1, 2],
                        kbs=[0.032, 0.08, None], hows=3, groups=1,
                        labels=False)],
            thorough=[dict(layouts=[0, 1, 2, 4], writes=2, sizes=[2, 2]),
                      dict(layouts=[3, 5, 6], writes=2, sizes=[1, 1],
                           hows=3),
                      dict(layouts=list(range(7)), writes=3, sizes=[2, 1, 3],
                           kbs=[0.032, 0.08, None], hows=3, groups=2,
                           labels=False)]),
    Harness('limits', limits, quick=[dict(cases=CASES[:-5]),
                                     dict(cases=CASES[-5:])]),
    Harness('wide', wide, quick=[dict(ns=[2, 126, 253, 256])]),
    Harness('refused', refused, quick=[dict()]),
]

"""Runs a whole ABX task on items with symbolic labels and reads the result
back in terms of the items of the item file."""
import os


class Items(object):
    """n items; `cols` maps column names to lists of labels"""

    def __init__(self, ctx, n, cols):
        self.ctx, self.n = ctx, n
        self.names = list(cols)
        self.cols = cols

    def write(self, name='data.item', missing=()):
        rows = []
        for i in range(self.n):
            rows.append(['f%d' % i, 0.25 * i, 0.25 * i + 0.125] +
                        [self.cols[c][i] for c in self.names])
        return self.ctx.write_items(name, self.names, rows)


def labels(ctx, name, n, k, filler=0, base=0):
    """n labels: the first n-filler symbolic over k values, the others
    distinct constants above them"""
    m = n - filler
    ls = [ctx.label('%s%d' % (name, i), 0, k - 1) for i in range(m)]
    return ls + [ctx.const_label(1000 + base + i) for i in range(filler)]


def concrete_labels(ctx, name, n, k):
    return [ctx.choose('%s%d' % (name, i), k) for i in range(n)]


def fixed_labels(ctx, arr, k=2):
    """columns with the labels of `arr`, arbitrary where it has None"""
    out = {}
    for c, ls in arr.items():
        top = max([v for v in ls if v is not None] + [k - 1])
        if c.startswith('by'):      # they name groups of the file
            out[c] = [ctx.choose('%s%d' % (c, i), top + 1) if v is None
                      else v for i, v in enumerate(ls)]
            continue
        const = ctx.const_label if None in ls else (lambda v: v)
        out[c] = [ctx.label('%s%d' % (c, i), 0, top) if v is None else
                  const(v) for i, v in enumerate(ls)]
    return out


class Result(object):
    pass


def generate(ctx, items, on, across=None, by=None, filters=None,
             regressors=None, threshold=None, seed=None, want_regs=False,
             fname='data.item', buf_kb=None, out=None):
    """Task(...).generate_triplets(...) and everything read back"""
    task = ctx.load('ABXpy.task')
    f = items.write(fname)
    out = out or ctx.path('out.abx')
    tmp = ctx.path('tmp')
    os.mkdir(tmp)
    r = Result()

    def go():
        t = task.Task(f, on, across, by, filters, regressors)
        t.generate_triplets(output=out, threshold=threshold, tmpdir=tmp,
                            seed=seed)
        return t
    if buf_kb:
        with ctx.small_buffers(buf_kb, ('ABXpy.h5tools.h52np',)):
            with ctx.small_buffers(max(buf_kb, 0.016),
                                   ('ABXpy.h5tools.np2h5',)):
                t = go()
    else:
        t = go()
    r.task = t
    r.out = out
    r.tmp_left = os.listdir(tmp)
    r.exists = os.path.exists(out)
    read_back(ctx, items, r, want_regs)
    return r


def ints(ctx, a):
    return [int(ctx.value(v)) for v in a]


def read_regs(ctx, g, r):
    """{regressor: [label of each row]}"""
    names = [v if isinstance(v, str) else v.decode()
             for v in g['indexed_datasets'][...]]
    cum = ints(ctx, g['indexed_cumudims'][...])
    if cum != list(range(1, len(names) + 1)):
        r.problems.append('regressor columns end at %s' % cum)
    data = g['indexed_data'][...]
    out = {}
    for j, nm in enumerate(names):
        ix = g['indexes'][nm][...]
        col = [int(ctx.value(data[i, j])) for i in range(data.shape[0])]
        bad = [v for v in col if not 0 <= v < len(ix)]
        if bad:
            r.problems.append('regressor %s has values %s out of its %d levels'
                              % (nm, bad, len(ix)))
            col = [v if 0 <= v < len(ix) else 0 for v in col]
        out[nm] = [ix[v] for v in col]
    return out


def read_back(ctx, items, r, want_regs=False):
    r.bys, r.triplets, r.by_of, r.pairs, r.regs = [], [], [], {}, []
    r.base = {}
    r.raw_pairs = None
    r.problems = []
    r.reg = []
    if not r.exists:
        return
    feat = {}
    with ctx.h5py.File(r.out, 'r') as fh:
        bys = [b if isinstance(b, str) else b.decode() for b in fh['bys'][...]]
        index = [ints(ctx, row) for row in fh['triplets/by_index'][...]]
        data = fh['triplets/data'][...]
        r.n_rows = int(data.shape[0])
        rows = [ints(ctx, data[i]) for i in range(r.n_rows)]
        r.rows = rows
        r.attrs = {}
        if 'unique_pairs' in fh:
            up = fh['unique_pairs/data'][...]
            r.raw_pairs = [int(ctx.value(up[i, 0]))
                           for i in range(up.shape[0])]
            for b in bys:
                if b in fh['unique_pairs'].attrs:
                    r.attrs[b] = ints(ctx, fh['unique_pairs'].attrs[b])
        r.attr_keys = sorted(fh['unique_pairs'].attrs.keys())
        if want_regs:
            r.reg_of = {b: read_regs(ctx, fh['regressors'][b], r)
                        for b in bys}
    store = ctx.pd.HDFStore(r.out, 'r')
    for b in bys:
        df = store['/feat_dbs/' + b]
        feat[b] = [int(str(v)[1:]) for v in df['file']]
        r.problems += ['item %s of the features table of %s has onset %s, '
                       'offset %s' % (f, b, o, e) for f, o, e in zip(
                           df['file'], df['onset'], df['offset'])
                       if (o, e) != (0.25 * int(str(f)[1:]),
                                     0.25 * int(str(f)[1:]) + 0.125)]
    store.close()
    r.bys = bys
    r.index = index
    r.feat = feat
    if len(index) != len(bys):
        r.problems.append('%d by values, %d by ranges' % (len(bys),
                                                          len(index)))
        return
    pos = 0
    for b, (lo, hi) in zip(bys, index):
        if lo != pos or hi <= lo:
            r.problems.append('by ranges %s are not contiguous' % (index,))
        pos = hi
        if want_regs:
            for nm, col in r.reg_of[b].items():
                if len(col) != hi - lo:
                    r.problems.append('%d rows of regressor %s for %d triplets'
                                      % (len(col), nm, hi - lo))
        for k in range(lo, min(hi, len(rows))):
            t = rows[k]
            bad = [v for v in t if not 0 <= v < len(feat[b])]
            if bad:
                r.problems.append('triplet %s refers to an item outside the '
                                  '%d of its block' % (t, len(feat[b])))
                continue
            r.triplets.append(tuple(feat[b][v] for v in t))
            r.by_of.append(b)
            if want_regs and not r.problems:
                r.reg.append({nm: col[k - lo]
                              for nm, col in r.reg_of[b].items()})
    if pos != len(rows):
        r.problems.append('%d triplets stored, the by ranges cover %d' % (
            len(rows), pos))


def valid(ctx, items, on, across, by, a, b, x):
    """the definition of an ABX triplet"""
    C = items.cols
    conds = [C[on][a] == C[on][x], ctx.Not(C[on][a] == C[on][b])]
    if across:
        for c in across:
            conds.append(C[c][a] == C[c][b])
            conds.append(ctx.Not(C[c][a] == C[c][x]))
    else:
        conds.append(a != x)
    for c in by or ():
        conds.append(C[c][a] == C[c][b])
        conds.append(C[c][a] == C[c][x])
    return ctx.And(conds)


def check_triplets(ctx, items, r, on, across, by, extra=None, among=None):
    """every valid triplet once, nothing else.  extra(a, b, x): further
    condition (filters); among: only these item numbers"""
    for p in r.problems:
        ctx.fail(p)
    if r.problems:
        return
    ctx.check(not r.tmp_left, 'temporary files left: %s' % r.tmp_left)
    count = {}
    for t in r.triplets:
        count[t] = count.get(t, 0) + 1
    for t, k in count.items():
        ctx.check(k == 1, 'triplet %s listed %d times' % (t, k))
    rng = range(items.n) if among is None else among
    bad_missing, bad_extra = [], []
    for a in rng:
        for b in rng:
            for x in rng:
                v = valid(ctx, items, on, across, by, a, b, x)
                if v is not False and extra is not None:
                    v = ctx.And(v, extra(a, b, x))
                if (a, b, x) in count:
                    bad_extra.append(ctx.Not(v))
                elif v is not False:
                    bad_missing.append(v)
    ctx.check(ctx.Not(ctx.Or(bad_extra)),
              'a triplet that is not valid was generated')
    ctx.check(ctx.Not(ctx.Or(bad_missing)),
              'a valid triplet is missing')
    if among is not None:
        s = set(among)
        ctx.check(all(set(t) <= s for t in count),
                  'a triplet involves an item that can be in none')


def check_pairs(ctx, r):
    """unique pairs: what the triplets need, sorted, once, by contiguous
    ranges in the order of the by values"""
    for p in r.problems:
        ctx.fail(p)
    if r.problems:
        return
    ctx.check(not r.tmp_left, 'temporary files left: %s' % r.tmp_left)
    ctx.check(sorted(r.attrs) == sorted(r.bys) == sorted(r.attr_keys),
              'pair ranges for %s, by values %s' % (r.attr_keys, r.bys))
    pos = 0
    k = 0
    for b, (lo, hi) in zip(r.bys, r.index):
        if b not in r.attrs:
            continue
        base, plo, phi = r.attrs[b]
        ctx.check(plo == pos and phi > plo,
                  'pair range %s of %s does not follow the previous one, '
                  'which ended at %d' % ((plo, phi), b, pos))
        pos = phi
        want = set()
        ctx.check(0 < base <= len(r.feat[b]) and all(
            0 <= v < base for t in r.rows[lo:hi] for v in t),
            'base %d for %d items' % (base, len(r.feat[b])))
        for a, bb, x in r.rows[lo:hi]:
            want.add(a + base * x)
            want.add(bb + base * x)
        got = r.raw_pairs[plo:phi]
        ctx.check(got == sorted(want), 'pairs of block %s are %s, the '
                  'triplets need %s' % (b, got, sorted(want)))
    ctx.check(pos == len(r.raw_pairs), '%d pairs stored, the ranges cover %d'
              % (len(r.raw_pairs), pos))


def check_regressors(ctx, items, r, names):
    """names: {regressor: (column, 'a', 'b' or 'x')}"""
    for p in r.problems:
        ctx.fail(p)
    if r.problems:
        return
    bad = []
    for t, reg in zip(r.triplets, r.reg):
        ctx.check(set(reg) == set(names), 'regressors %s, expected %s' % (
            sorted(reg), sorted(names)))
        who = dict(zip('abx', t))
        for nm, (col, w) in names.items():
            if nm in reg:
                bad.append(ctx.Not(reg[nm] == items.cols[col][who[w]]))
    ctx.check(ctx.Not(ctx.Or(bad)), 'a regressor does not describe the triplet '
              'of its row')

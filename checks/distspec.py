"""Task and features files written by hand, for the distance computation."""


def frame(ctx, cols):
    """a table whose columns may hold symbolic values"""
    import numpy as np
    import pandas
    df = {}
    for c, vals in cols.items():
        if ctx.symbolic:
            o = np.empty(len(vals), dtype=object)
            for i, v in enumerate(vals):
                o[i] = v
            df[c] = pandas.Series(o, dtype=object)
        else:
            df[c] = pandas.Series(vals)
    return pandas.DataFrame(df, columns=list(cols))


def task_file(ctx, blocks, name='task.abx'):
    """blocks: list of (by, items, base, pairs); items: list of (file, onset,
    offset); pairs: list of numbers first + base * second"""
    np, h5py = ctx.np, ctx.h5py
    p = ctx.path(name)
    total = sum(len(b[3]) for b in blocks)
    with h5py.File(p, 'w') as fh:
        fh.create_dataset('bys', (len(blocks),),
                          dtype=h5py.special_dtype(vlen=str))
        fh['bys'][:] = [b[0] for b in blocks]
        g = fh.create_group('unique_pairs')
        g.create_dataset('data', data=np.array(
            [[v] for b in blocks for v in b[3]],
            dtype=np.int64).reshape((total, 1)))
        pos = 0
        for by, items, base, pairs in blocks:
            g.attrs[by] = (base, pos, pos + len(pairs))
            pos += len(pairs)
    store = ctx.pd.HDFStore(p)
    for by, items, base, pairs in blocks:
        store.append('/feat_dbs/' + by, frame(ctx, {
            'file': [i[0] for i in items], 'onset': [i[1] for i in items],
            'offset': [i[2] for i in items]}))
    store.close()
    return p


def features_file(ctx, data, name='data.features', group='features'):
    """data: {file: (times, rows of features)}"""
    np = ctx.np
    p = ctx.path(name)
    ks = list(data)
    ctx.h5features.write(
        p, group, ks,
        [np.array(data[k][0], dtype=np.float64) for k in ks],
        [np.array(data[k][1], dtype=np.float64).reshape(
            (len(data[k][1]), -1)) for k in ks])
    return p


def distances(ctx, path):
    """(done, [row])"""
    with ctx.h5py.File(path, 'r') as fh:
        d = fh['distances/data'][...]
        return bool(fh.attrs['done']), [d[i, 0] for i in range(d.shape[0])]

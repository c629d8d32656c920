"""Uses of numpy and of builtins, compared between the stand-ins and reality."""
import numpy as np


def lst(r):
    if isinstance(r, (tuple, list)):
        return [lst(v) for v in r]
    if hasattr(r, 'tolist'):
        return r.tolist()
    return r


I3 = [
    lambda i, j: np.unravel_index(abs(i), (3, 4)),
    lambda i, j: np.ravel_multi_index((abs(i), abs(j)), (4, 5)),
    lambda i, j: np.setxor1d(i, j),
    lambda i, j: np.intersect1d(i, j, return_indices=True),
    lambda i, j: np.select([i > j, i == j], [i, j * 2], 7),
    lambda i, j: np.choose(abs(i) % 2, [i, j]),
    lambda i, j: np.einsum('i,i->', i, j),
    lambda i, j: np.einsum('i,j->ij', i, j),
    lambda i, j: np.broadcast_arrays(i.reshape(-1, 1), j),
    lambda i, j: np.block([[i, j], [j, i]]),
    lambda i, j: np.insert(i, 1, j[0]),
    lambda i, j: np.partition(i, 1)[1],
    lambda i, j: np.ptp(i),
    lambda i, j: np.var(i),
    lambda i, j: np.median(i),
    lambda i, j: np.nansum(i),
    lambda i, j: np.vdot(i, j),
    lambda i, j: np.trace(np.outer(i, j)),
    lambda i, j: np.tensordot(np.outer(i, j), j, 1),
    lambda i, j: np.invert(i),
    lambda i, j: ~i,
    lambda i, j: np.left_shift(i, 2),
    lambda i, j: np.right_shift(i, 1),
    lambda i, j: (i >> 1) << 1,
    lambda i, j: np.positive(i),
    lambda i, j: np.piecewise(i, [i < 0, i > 1], [-1, lambda v: v * 2, 0]),
    lambda i, j: np.average(i, weights=abs(j) + 1),
    lambda i, j: [np.can_cast(i.dtype, np.int32), np.promote_types(
        i.dtype, np.float32).name, np.issubdtype(i.dtype, np.integer),
        np.issubdtype(i.dtype, np.floating), np.issubdtype(np.float32,
                                                           np.floating)],
    lambda i, j: list(range(int(i[0]), int(j[0]) + 2)),
    lambda i, j: len(range(int(i[0]), int(j[0]) + 2, 2)),
    lambda i, j: list(range(0, 7, abs(int(i[0])) + 1)),
    lambda i, j: [int(j[0]) in range(0, int(i[0]) + 3),
                  bool(range(int(i[0]))), isinstance(range(3), range),
                  list(reversed(range(int(abs(i[0])))))],
    lambda i, j: sorted(set(i.tolist())),
    lambda i, j: sorted(set(i.tolist()) | set(j.tolist()) | {1}),
    lambda i, j: sorted(set(i.tolist()) & {0, 1, 2}),
    lambda i, j: sorted({0, 1, 2} - set(i.tolist())),
    lambda i, j: len(set(i.tolist()) ^ set(j.tolist())),
    lambda i, j: set(i.tolist()) == set(j.tolist()),
    lambda i, j: set(i.tolist()) <= set(j.tolist()),
    lambda i, j: [int(v) in set(i.tolist()) for v in j],
    lambda i, j: _setops(i, j),
    lambda i, j: _copyto(i, j),
    lambda i, j: np.take(i, [0, 2]),
    lambda i, j: np.lexsort((i, j)).tolist(),
    lambda i, j: np.unique(np.stack([i, j], 1), axis=0, return_inverse=True,
                           return_counts=True),
    lambda i, j: np.searchsorted(np.sort(i), j, side='right'),
    lambda i, j: np.diff(np.r_[0, i, 3]),
    lambda i, j: np.add.reduceat(i, [0, 2]),
    lambda i, j: np.maximum.accumulate(i),
    lambda i, j: np.minimum.reduce(i),
    lambda i, j: np.isin(i, j, invert=True),
    lambda i, j: np.where(i > j)[0],
    lambda i, j: np.flatnonzero(i != j),
    lambda i, j: np.bincount(abs(i), weights=j),
    lambda i, j: np.cumsum(i)[::-1],
    lambda i, j: divmod(i, 2),
    lambda i, j: np.array([tuple(v) for v in zip(i, j)]),
    lambda i, j: i.argsort(kind='mergesort')[np.argsort(i.argsort(
        kind='mergesort'))],
    lambda i, j: np.repeat(i, 2) * np.tile(j, 2),
    lambda i, j: i.astype(np.int8) * 64,
    lambda i, j: i.astype(np.uint8) - 1,
    lambda i, j: i.astype(np.uint16) + np.uint8(3),
    lambda i, j: (i.astype(bool) & (j > 0)) | (i == j),
    lambda i, j: np.all(np.outer(i, j) > -5, axis=1),
    lambda i, j: np.any(np.outer(i, j) > 3, axis=0),
    lambda i, j: np.argmax(np.stack([i, j]), axis=0),
    lambda i, j: np.argmin(i),
    lambda i, j: np.clip(i, -1, j),
    lambda i, j: np.concatenate([i, j])[np.concatenate([i, j]) > 0],
    lambda i, j: np.roll(i, 1) - i,
    lambda i, j: np.triu(np.outer(i, j), 1),
    lambda i, j: np.digitize(i, [-1, 0, 2]),
    lambda i, j: np.array_equal(i, j),
    lambda i, j: np.count_nonzero(i == j),
    lambda i, j: i // np.where(j == 0, 1, j),
    lambda i, j: i % np.where(j == 0, 1, j),
    lambda i, j: np.sign(i) * np.abs(j),
    lambda i, j: np.add.outer(i, j),
    lambda i, j: np.delete(i, 1),
    lambda i, j: [int(v) for v in i] + [v.item() for v in j],
    lambda i, j: max(i) - min(j),
    lambda i, j: sorted(zip(i.tolist(), j.tolist())),
    lambda i, j: sum(v for v in i.tolist() if v > 0),
    lambda i, j: _inplace(i, j),
]

X3 = [
    lambda x, y: np.linalg.norm(x),
    lambda x, y: np.linalg.norm(np.stack([x, y]), axis=1),
    lambda x, y: np.linalg.norm(np.stack([x, y]), axis=0, keepdims=True),
    lambda x, y: np.linalg.norm(x, 1),
    lambda x, y: np.linalg.norm(x, np.inf),
    lambda x, y: np.hypot(x, y),
    lambda x, y: np.nan_to_num(x),
    lambda x, y: np.std(x),
    lambda x, y: np.var(np.stack([x, y]), axis=0),
    lambda x, y: np.median(np.stack([x, y]), axis=1),
    lambda x, y: np.nanmean(x),
    lambda x, y: np.average(x, weights=[1, 2, 3]),
    lambda x, y: np.einsum('ij,kj->ik', np.stack([x, y]), np.stack([y, x])),
    lambda x, y: np.einsum('ij,ij->i', np.stack([x, y]), np.stack([y, x])),
    lambda x, y: np.einsum('...i,...i', np.stack([x, y]), y),
    lambda x, y: np.dot(np.stack([x, y]), y),
    lambda x, y: np.inner(x, y),
    lambda x, y: np.stack([x, y]) @ np.stack([x, y]).T,
    lambda x, y: np.mean(np.stack([x, y]), axis=0),
    lambda x, y: np.mean(x),
    lambda x, y: np.sort(x)[::-1],
    lambda x, y: x / np.where(y == 0, 1, y),
    lambda x, y: np.floor(x) + np.ceil(y) + np.rint(x) + np.trunc(y),
    lambda x, y: np.minimum(x, y) + np.maximum(x, 0),
    lambda x, y: x.sum(axis=0, keepdims=True) / 3,
    lambda x, y: np.add(x, y, out=np.empty(3)),
    lambda x, y: np.isclose(x, y),
    lambda x, y: np.cumsum(np.stack([x, y]), axis=1),
    lambda x, y: np.prod(x),
    lambda x, y: x ** 2 - np.square(y),
    lambda x, y: np.sqrt(x * x),
    lambda x, y: np.reciprocal(np.where(x == 0, 1., x)),
    lambda x, y: np.apply_along_axis(lambda v: v.sum(), 1, np.stack([x, y])),
    lambda x, y: np.deg2rad(x) * 2,
    lambda x, y: np.signbit(x),
    lambda x, y: np.column_stack([x, y]).mean(axis=1),
    lambda x, y: np.interp(1.5, [1, 2], [0., 4.]) + x,
    lambda x, y: x.astype(np.int64),
    lambda x, y: np.round(x),
    lambda x, y: np.outer(x, y).T.ravel(),
    lambda x, y: np.subtract.outer(x, y),
    lambda x, y: min(x.min(), y.max()),
    lambda x, y: np.unique(x).size,
    lambda x, y: np.round(x, 1),
    lambda x, y: (x * 7).round(-1),
    lambda x, y: [round(v, 1) + 1 for v in x],
]


def _setops(i, j):
    s = set()
    for v in i.tolist():
        s.add(v)
    s.discard(int(j[0]))
    s.update(j.tolist()[1:])
    t = s.copy()
    t -= {0}
    t |= {3}
    s.add(1)
    return [sorted(s), sorted(t), len(s.union(t)), s.isdisjoint(t),
            s.issuperset([1]), frozenset(i.tolist()) == frozenset(j.tolist())]


def _copyto(i, j):
    a = i.copy()
    np.copyto(a, j, where=j > 0)
    b = i.copy()
    np.putmask(b, b < 0, 5)
    c = i.copy()
    np.put(c, [0, 2], [8, 9])
    np.add.at(c, [0, 0], j[1:])
    return [a, b, c]


def _inplace(i, j):
    a = i.copy()
    a += j
    a *= 2
    a[a > 3] = 0
    b = np.zeros((2, 3), int)
    b[0] = a
    b[1, 1:] = j[:-1]
    b[:, 0] -= 1
    return b

"""Data enumeration: every dataset size, batch size, draw and short history of calls."""
import itertools
import math
import os
import tempfile
import numpy as np
import jax
import jax.numpy as jnp
from mc import p08
from mc.explore import explore, conformance
from mc.report import Violation
from fbs.data.base import Dataset
from fbs.data.images import Image, ImageRestore, MNIST, CIFAR10, CelebAHQ, MNISTRestore, CelebAHQRestore


class Plain(Dataset):
    def __init__(self, n, tail=(2,), perm=False):
        self.n = n
        self.xs = jnp.asarray(100. * np.arange(1., n + 1).reshape((n,) + (1,) * len(tail)) +
                              np.arange(np.prod(tail, dtype=int)).reshape(tail))


class Pictures(Image):
    def __init__(self, n, task, shape):
        self.n, self.task, self.image_shape = n, task, shape
        r = np.random.default_rng(5)
        self.xs = jnp.asarray(np.arange(1., n + 1).reshape(n, 1, 1, 1) + 0.5 * r.random((n,) + shape))


def uniform_rows(ck, rows, w, count, what):
    P = {}
    for r, p in zip(rows, w):
        P[tuple(r)] = P.get(tuple(r), 0.) + p
    ck.require(len(P) == count, 'support', f'{what}: {len(P)} outcomes instead of {count}')
    ck.close(list(P.values()), np.full(len(P), 1. / count), 'uniform', f'{what} is not uniform', tol=1e-9)


def conform(ck, fn, law, n=20):
    try:
        ck.count(traces=conformance(fn, (np.zeros(1),), law, n, 1))
    except AssertionError as e:
        raise Violation('conformance', str(e))


def epoch(ck, n, b, tail):
    ds = Plain(n, tail)
    nch = n // b
    shapes = []

    def fn(key, d):
        chunks = ds.init_enumeration(key, b)
        shapes.append([tuple(c.shape) for c in chunks])
        same = [a is c or jnp.array_equal(a, c) for a, c in zip(chunks, ds.perm_inds)]
        ck.require(len(ds.perm_inds) == len(chunks), 'stored', 'the stored chunks are those returned')
        return jnp.stack(chunks), jnp.stack(ds.perm_inds), jnp.stack([ds.enumerate_subset(i) for i in range(len(chunks))])

    law = explore(fn, (np.zeros(1),), uniform=2)
    ck.count(law)
    ck.require(all(s == [(b,)] * nch for s in shapes), 'chunks', f'chunks {shapes[0]} for {n} items and batch size {b}')
    inds, stored, xs = law.out
    ck.require(np.array_equal(inds, stored), 'stored', 'the stored chunks are those returned')
    flat = inds.reshape(len(inds), -1)
    ck.require(((flat >= 0) & (flat < n)).all(), 'range', 'index out of range')
    ck.require(all(len(set(r)) == len(r) for r in flat.tolist()), 'once', 'an item is visited twice in an epoch')
    ck.require(np.array_equal(xs, np.asarray(ds.xs)[inds]), 'items', 'a chunk is not made of the items its indices name')
    k = len(set(flat.ravel().tolist()))
    if n % b == 0:
        ck.require(k == n, 'cover', 'an item is never visited')
    uniform_rows(ck, flat.tolist(), law.w, math.perm(k, nch * b), f'the order of {n} items in batches of {b}')
    ck.sample(items=n, batch=b, orders=len(law.w), order=flat[0])
    conform(ck, fn, law)


def subset(ck, n, b, tail):
    ds = Plain(n, tail)
    law = explore(lambda key, d: ds.draw_subset(key, b), (np.zeros(1),), uniform=2)
    ck.count(law)
    out = np.asarray(law.out)
    ck.require(out.shape[1:] == (b,) + tail, 'shape', f'a subset has shape {out.shape[1:]}')
    idx = np.round(out.reshape(len(out), b, -1)[:, :, 0] / 100).astype(int) - 1
    ck.require(((idx >= 0) & (idx < n)).all() and np.array_equal(out, np.asarray(ds.xs)[np.clip(idx, 0, n - 1)]), 'items',
               'a subset is not made of items')
    ck.require(all(len(set(r)) == b for r in idx.tolist()), 'once', 'a subset contains an item twice')
    ck.close(np.bincount(idx.ravel(), weights=np.repeat(law.w, b), minlength=n), np.full(n, b / n), 'uniform',
             'items are not equally likely', tol=1e-9)
    uniform_rows(ck, idx.tolist(), law.w, math.perm(n, b), f'the subset of {b} of {n} items')
    conform(ck, lambda key, d: ds.draw_subset(key, b), law)


def history(ck, n, ops):
    """A sequence of initialisations (i<batch>) and reads (r<chunk>, p<chunk> with given indices): every read sees the
    latest initialisation, and reading changes nothing."""
    ds = Plain(n)
    given = [jnp.array([n - 1, 0]), jnp.array([1, 1])]

    def fn(key, d):
        res = []
        model = None
        for op in ops:
            if op[0] == 'i':
                key, k = jax.random.split(key)
                model = [c for c in ds.init_enumeration(k, int(op[1:]))]
                continue
            i = int(op[1:])
            if op[0] == 'p':
                res.append((ds.enumerate_subset(i, perm_inds=given), ds.xs[given[i]]))
            else:
                res.append((ds.enumerate_subset(i % len(model)), ds.xs[model[i % len(model)]]))
        return res

    law = explore(fn, (np.zeros(1),), uniform=2)
    ck.count(law)
    for k, (a, b) in enumerate(law.out):
        ck.require(np.array_equal(a, b), 'history', f'read {k} after {ops} does not see the items of the latest initialisation')


def pictures(ck, n, b, task, shape, i):
    """A chunk of image pairs: each item with its own corruption; the corruptions are independent draws."""
    ds = Pictures(n, task, shape)

    def one(key, x):
        return ds.corrupt(key, jnp.asarray(x))

    perm = [jnp.asarray(np.roll(np.arange(n), 1)[:b]), jnp.asarray(np.arange(n)[::-1][:b])]

    def fn(key, d):
        return ds.enumerate_subset(i, perm, key)

    law = explore(fn, (np.zeros(1),), uniform=3, chunk=256)
    ck.count(law)
    xs, ys = law.out
    want = np.asarray(ds.xs)[np.asarray(perm[i])]
    ck.require((xs == want).all(), 'items', 'the clean images are not the items of the chunk')
    joint = {}
    for r in range(len(law.w)):
        k = tuple(np.round(ys[r].ravel(), 9))
        joint[k] = joint.get(k, 0.) + law.w[r]
    margs = []
    for x in want:
        m = explore(one_fn(ds), (x[None],), uniform=3, chunk=256)
        ck.count(m)
        g = {}
        for r in range(len(m.w)):
            k = tuple(np.round(np.asarray(m.out)[r].ravel(), 9))
            g[k] = g.get(k, 0.) + m.w[r]
        margs.append(g)
    prod = {}
    for combo in itertools.product(*[g.items() for g in margs]):
        k = sum((c[0] for c in combo), ())
        prod[k] = prod.get(k, 0.) + float(np.prod([c[1] for c in combo]))
    ck.require(set(joint) == set(prod), 'own', 'a corrupted image is not the corruption of its own item, or the '
               'corruptions are not drawn independently')
    ck.close([joint[k] for k in prod], list(prod.values()), 'own', 'the corruptions are not drawn independently', tol=1e-9)
    ck.sample(task=task, items=n, batch=b, outcomes=len(prod))
    if task != 'none' and 'deconv' not in task:
        conform(ck, fn, law)


def one_fn(ds):
    return lambda key, x: ds.corrupt(key, x)


def no_task(ck):
    ds = Pictures(3, 'none', (2, 2, 1))
    perm = [jnp.array([2, 0]), jnp.array([1, 1])]
    for i in range(2):
        x, y = ds.enumerate_subset(i, perm)
        ck.require(y is None and np.array_equal(x, ds.xs[perm[i]]), 'items', 'plain chunks')
        ck.count(states=1, transitions=1)
    ds.perm_inds = perm
    x, y = ds.enumerate_subset(0)
    ck.require(np.array_equal(x, ds.xs[perm[0]]), 'items', 'stored chunks')


def pair(ck, n, task, shape):
    """The sampler of pairs: the item is uniform, the corrupted image is a corruption of that item with its law."""
    ds = Pictures(n, task, shape)
    law = explore(lambda key, d: ds.sampler(key), (np.zeros(1),), uniform=3, chunk=256)
    ck.count(law)
    xs, ys = (np.asarray(a) for a in law.out)
    joint = {}
    for r in range(len(law.w)):
        hit = [i for i in range(n) if np.array_equal(xs[r], np.asarray(ds.xs[i]))]
        ck.require(len(hit) == 1, 'items', 'the clean image is not an item')
        k = (hit[0],) + tuple(np.round(ys[r].ravel(), 9))
        joint[k] = joint.get(k, 0.) + law.w[r]
    want = {}
    m = explore(one_fn(ds), (np.asarray(ds.xs),), uniform=3, chunk=256)
    for r in range(len(m.w)):
        k = (int(m.init[r]),) + tuple(np.round(np.asarray(m.out)[r].ravel(), 9))
        want[k] = want.get(k, 0.) + m.w[r] / n
    ck.require(set(joint) == set(want), 'own', 'a corrupted image is not a corruption of its own item')
    ck.close([joint[k] for k in want], list(want.values()), 'own', 'items or corruptions have the wrong probabilities', tol=1e-9)


def large(ck, n, b, seeds):
    """As many items as the datasets in use have: what holds for every key."""
    ds = Plain(n, (1,))
    pic = Pictures(1, 'none', (1, 1, 1))
    pic.n, pic.xs = n, jnp.arange(1., n + 1).reshape(n, 1, 1, 1)
    firsts = set()
    for seed in range(seeds):
        key = jax.random.PRNGKey(seed)
        ch = [np.asarray(c) for c in ds.init_enumeration(key, b)]
        ck.require([c.shape for c in ch] == [(b,)] * (n // b), 'chunks', f'{len(ch)} chunks for {n} items and batch size {b}')
        flat = np.concatenate(ch).astype(int)
        ck.require(((flat >= 0) & (flat < n)).all(), 'range', 'index out of range')
        ck.require(len(np.unique(flat)) == len(flat), 'once', 'an item is visited twice in an epoch')
        for i in {0, len(ch) // 2, len(ch) - 1}:
            ck.require(np.array_equal(ds.enumerate_subset(i), 100. * (flat.reshape(-1, b)[i][:, None] + 1)), 'items',
                       'a chunk is not made of the items its indices name')
            ck.require(np.array_equal(np.ravel(pic.enumerate_subset(i, ds.perm_inds)[0]), flat.reshape(-1, b)[i] + 1.), 'items',
                       'a chunk of images is not made of the items its indices name')
        sub = np.asarray(ds.draw_subset(key, b)).ravel() / 100 - 1
        ck.require(len(set(sub)) == b and set(sub) <= set(range(n)), 'once', 'a subset contains an item twice, or something else')
        firsts.add(int(flat[0]) * n + int(sub[0]))
        ck.count(states=2, transitions=len(flat) + b)
    ck.require(len(firsts) == seeds, 'order', 'different keys give the same order')


def loading(ck, cls, test):
    """The loaders keep every item exactly once; training and test parts are disjoint and together all of the file, also when they
    are loaded with different keys."""
    key = jax.random.PRNGKey(7)
    with tempfile.TemporaryDirectory(prefix='mc-data-') as tmp:
        path = os.path.join(tmp, 'd.npy')
        if cls in (CelebAHQ, CelebAHQRestore):
            data = np.arange(30000.)[:, None, None, None] * 12 + np.arange(12.).reshape(2, 2, 3)
            np.save(path, data)
            task = 'supr-2' if cls is CelebAHQRestore else 'supr'
            parts = [cls(key, path, resolution=2, task=task, test=t) for t in (False, True)]
            for p, n in zip(parts, (29000, 1000)):
                ck.require(p.n == n and p.xs.shape == (n, 2, 2, 3) and tuple(p.image_shape) == (2, 2, 3), 'shape', f'{p.n} items of shape {p.xs.shape}')
            ids = np.concatenate([np.asarray(p.xs, float)[:, 0, 0, 0] for p in parts]) / 12
            ck.require(np.array_equal(np.sort(ids), np.arange(30000)), 'split', 'training and test items overlap or are lost')
            for p in parts:
                x = np.asarray(p.xs, float)
                ck.require(np.array_equal(x - x[:, :1, :1, :1], np.broadcast_to(data[0], x.shape)), 'items', 'an item is altered')
            ck.require(not np.array_equal(ids, np.sort(ids)), 'order', 'the items are not permuted')
            for seed in (0, 996):
                other = cls(jax.random.PRNGKey(seed), path, resolution=2, task=task, test=True)
                b = np.asarray(other.xs, float)[:, 0, 0, 0] / 12
                ck.require(not np.isin(b, ids[:29000]).any(), 'held-out', f'{np.isin(b, ids[:29000]).sum()} of the 1000 test items loaded '
                           'with another key are training items')
                ck.require(not np.array_equal(b, ids[29000:]), 'order', 'the order does not depend on the key')
        else:
            n = (60000, 10000)[test] if cls is not CIFAR10 else (50000, 10000)[test]
            d = 784 if cls is not CIFAR10 else 3072
            name = (('train_data', 'test_data') if cls is CIFAR10 else ('X', 'X_test'))[test]
            raw = np.zeros((n, d), np.float32 if cls is not CIFAR10 else np.float16)
            raw[:, 0], raw[:, 1] = np.arange(n) // 256, np.arange(n) % 256
            raw[:, 2:] = np.arange(d - 2) % 251
            path = os.path.join(tmp, 'd.npz')
            np.savez(path, **{name: raw if cls is not CIFAR10 else raw.reshape(n, 32, 32, 3)})
            ds = cls(key, path, test=test)
            shape = (28, 28, 1) if cls is not CIFAR10 else (32, 32, 3)
            ck.require(ds.n == n and ds.xs.shape == (n,) + shape and tuple(ds.image_shape) == shape, 'shape', f'{ds.n} items of shape {ds.xs.shape}')
            x = np.asarray(ds.xs).reshape(n, d)
            ids = x[:, 0].astype(int) * 256 + x[:, 1].astype(int)
            ck.require(np.array_equal(np.sort(ids), np.arange(n)), 'split', 'items are lost or doubled')
            ck.require(np.array_equal(x[:, 2:], np.broadcast_to(raw[0, 2:], (n, d - 2))), 'items', 'an item is altered')
            ck.require(not np.array_equal(ids, np.arange(n)), 'order', 'the items are not permuted')
    ck.count(states=1, transitions=1, traces=1)


def standardise(ck):
    """The base standardisation gives zero mean and unit variance per feature; reshape keeps the values."""
    for v in itertools.product((0., 1., 5.), repeat=3):
        for s in (1., 1e3):
            x = np.stack([s * np.array(v), s * np.array([-1., 2., 4.])], axis=1)
            if len(set(v)) == 1:
                continue
            y = np.asarray(Dataset.standardise(jnp.asarray(x)))
            ck.close(y.mean(0), np.zeros(2), 'mean', 'standardised mean', tol=1e-9)
            ck.close((y ** 2).mean(0), np.ones(2), 'std', 'standardised variance', tol=1e-9)
            ck.close(y * x.std(0) + x.mean(0), x, 'affine', 'standardisation is affine', tol=1e-9)
            ck.count(states=1, transitions=1)
    for shape, want in (((), (1, 1)), ((4,), (4, 1)), ((4, 2), (4, 2)), ((4, 2, 3), (4, 2, 3))):
        x = np.arange(float(np.prod(shape, dtype=int))).reshape(shape)
        y = np.asarray(Dataset.reshape(jnp.asarray(x)))
        ck.require(y.shape == want and np.array_equal(y.ravel(), x.ravel()), 'reshape', f'{shape} becomes {y.shape}')


def run(ck):
    top = 7 if not ck.thorough else 9
    for n in range(1, top):
        for b in range(1, n + 1):
            ck.case(f'epoch-{n}-{b}', epoch, ck, n, b, ((2,), (), (2, 1, 3))[(n + b) % 3])
            if math.perm(n, b) <= 50000:
                ck.case(f'subset-{n}-{b}', subset, ck, n, b, ((2,), (1,), (2, 2))[(n + b) % 3])
    for n, b in ((300, 1), (300, 64), (300, 300), (33000, 256), (70000, 64)):
        ck.case(f'large-{n}-{b}', large, ck, n, b, 3 if not ck.thorough else 30)
    for ops in (('i2', 'r0', 'r1'), ('i1', 'r2', 'r0', 'r2'), ('i2', 'r1', 'i1', 'r0'), ('i1', 'i2', 'p1', 'r1'),
                ('i2', 'p0', 'r0', 'p1', 'r0'), ('i3', 'r0', 'i2', 'r0', 'p0', 'r1')):
        for n in (2, 3, 4):
            if all(int(o[1:]) <= n for o in ops if o[0] == 'i'):
                ck.case(f'history-{n}-{"-".join(ops)}', history, ck, n, ops)
    for n, b, task, shape in ((2, 1, 'inpaint-2', (5, 5, 1)), (3, 2, 'inpaint-1', (4, 4, 2)), (3, 3, 'supr', (8, 8, 1)),
                              (2, 2, 'supr-4', (16, 8, 2)), (3, 2, 'deconv-3', (4, 3, 1)), (2, 2, 'deconv-3', (3, 3, 2))):
        for i in (0, 1):
            ck.case(f'pictures-{n}-{b}-{task}-{i}', pictures, ck, n, b, task, shape, i)
        for m in (1, n, 4):
            ck.case(f'pair-{m}-{task}', pair, ck, m, task, shape)
    ck.case('no-task', no_task, ck)
    for cls, tests in ((MNIST, (False, True)), (CIFAR10, (True,)), (MNISTRestore, (False, True)), (CelebAHQ, (False,)),
                       (CelebAHQRestore, (False,))):
        for t in tests:
            ck.case(f'loading-{cls.__name__}-{t}', loading, ck, cls, t)
    ck.case('standardise', standardise, ck)
    p08.keys(ck, 'draw-subset', 'enumeration', 'image-batch')
    ck.bound(f'1..{top - 1} items, all batch sizes, all orders; histories of up to 6 initialisations and reads; up to 70000 items with a few keys; image chunks of up to '
             '3 items with all corruption draws; the loaders run on synthetic files of the real sizes (one key each)')
    ck.assume('blur strengths are explored on 3 grid points of the uniform draw')

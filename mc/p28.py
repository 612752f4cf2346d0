"""Data preparation: the converters run on complete synthetic raw data, and every value they write is compared with its image."""
import contextlib
import io
import itertools
import os
import pickle
import re
import runpy
import subprocess
import sys
import tempfile
import warnings
import numpy as np
import jax
import jax.numpy as jnp
from mc import rng
from fbs.data.images import CIFAR10, CelebAHQ


@contextlib.contextmanager
def attrs(pairs):
    old = [(o, n, getattr(o, n)) for o, n, _ in pairs]
    try:
        for o, n, v in pairs:
            setattr(o, n, v)
        yield
    finally:
        for o, n, v in old:
            setattr(o, n, v)


def shipped(path, cwd, pairs=()):
    """Run a script of the repository as shipped, in a scratch folder."""
    here, argv, x64 = os.getcwd(), sys.argv, jax.config.jax_enable_x64
    try:
        os.chdir(cwd)
        sys.argv = [os.path.basename(path)]
        jax.config.update('jax_enable_x64', False)  # as in a fresh interpreter
        with attrs(pairs), contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            runpy.run_path(os.path.join(rng.REPO, path), run_name='__main__')
    finally:
        jax.config.update('jax_enable_x64', x64)
        sys.argv = argv
        os.chdir(here)


# ---- CIFAR-10 ---------------------------------------------------------------------------------------------------------------
def raw_cifar(b):
    """Ten thousand images of batch b (5: test), in the layout of the distributed files: colour planes, rows, columns. The first two
    values of the red plane tell the image, its last the batch; every value of a byte occurs at every pixel."""
    r = np.arange(10000)[:, None]
    p = np.arange(1024)[None]
    planes = [(7 * r + 3 * p + (p // 32) * 11 + 85 * c + 31 * b) % 256 for c in range(3)]
    d = np.concatenate(planes, axis=1).astype(np.uint8)
    d[:, 0], d[:, 1], d[:, 1023] = r[:, 0] // 256, r[:, 0] % 256, b
    return d


def pixels(d):
    return np.stack([d[:, 1024 * c:1024 * (c + 1)].reshape(-1, 32, 32) for c in range(3)], axis=-1)


def run_cifar(ck, tmp, extra=()):
    d = os.path.join(tmp, 'cifar-10-batches-py')
    os.makedirs(d)
    names = [f'data_batch_{i + 1}' for i in range(5)] + ['test_batch']
    for b, n in enumerate(names):
        with open(os.path.join(d, n), 'wb') as f:
            pickle.dump({b'batch_label': n.encode(), b'labels': [0] * 10000, b'data': raw_cifar(b), b'filenames': [b''] * 10000}, f)
    shipped('experiments/datasets/make_cifar10.py', tmp)
    new = sorted(set(os.listdir(tmp)) - {'cifar-10-batches-py'})
    ck.require(new == ['cifar10.npz'], 'file', f'writes {new}')
    return os.path.join(tmp, 'cifar10.npz')


def cifar(ck):
    with tempfile.TemporaryDirectory(prefix='mc-cifar-') as tmp:
        path = run_cifar(ck, tmp)
        z = np.load(path)
        ck.require(set(z.files) == {'train_data', 'test_data'}, 'arrays', f'arrays {z.files}')
        for name, bs in (('train_data', range(5)), ('test_data', [5])):
            a = z[name]
            ck.require(a.shape == (10000 * len(bs), 32, 32, 3), 'shape', f'{name} has shape {a.shape}')
            ck.require(a.dtype == np.float32, 'type', f'{name} has type {a.dtype}')
            for i, b in enumerate(bs):
                got = a[10000 * i:10000 * (i + 1)]
                want = pixels(raw_cifar(b)).astype(np.float32) / np.float32(255)
                bad = np.abs(got - want) > 1e-6
                if bad.any():
                    k = np.argwhere(bad)[0]
                    ck.require(False, 'value', f'{name}: {int(bad.sum())} values of batch {b} differ, the first at {k.tolist()}: {got[tuple(k)]}, expected {want[tuple(k)]}')
                ck.count(states=10000, transitions=want.size)
        # the loader takes the file
        ds = CIFAR10(jax.random.PRNGKey(3), path, test=True)
        xs = np.asarray(ds.xs, float)
        ids = np.round(xs[:, 0, 0, 0] * 255).astype(int) * 256 + np.round(xs[:, 0, 1, 0] * 255).astype(int)
        ck.require(np.array_equal(np.sort(ids), np.arange(10000)), 'loader', 'the loader does not return every test image once')
        ck.close(xs, pixels(raw_cifar(5)).astype(np.float64)[ids] / 255, 'loader', 'the loaded test images', tol=1e-6)
        ck.count(states=10000, transitions=10000, traces=1)


def downloads(ck):
    """The preparation command: fetches, unpacks, converts while the raw files are there, and removes nothing but what it fetched."""
    with tempfile.TemporaryDirectory(prefix='mc-cifar-') as tmp:
        bindir, cwd, log = (os.path.join(tmp, n) for n in ('bin', 'cwd', 'log'))
        os.makedirs(bindir)
        os.makedirs(cwd)
        for n in ('wget', 'tar', 'python', 'python3', 'rm', 'curl', 'mv', 'mkdir'):
            with open(os.path.join(bindir, n), 'w') as f:
                f.write(f'#!/bin/bash\necho "{n} $*" >> "{log}"\n')
            os.chmod(os.path.join(bindir, n), 0o755)
        p = subprocess.run(['/bin/bash', os.path.join(rng.REPO, 'experiments/datasets/make_cifar10.sh')], cwd=cwd, env=dict(PATH=bindir), capture_output=True, text=True)
        lines = open(log).read().splitlines() if os.path.exists(log) else []
        ck.require(p.returncode == 0, 'command', f'ends with {p.returncode}: {p.stderr[-200:]}')
        at = {k: [i for i, l in enumerate(lines) if re.search(rx, l)] for k, rx in dict(
            get=r'^(wget|curl) .*cifar-10-python\.tar\.gz', unpack=r'^tar .*x.*cifar-10-python\.tar\.gz', convert=r'^python3? .*make_cifar10\.py', remove=r'^rm ').items()}
        for k in ('get', 'unpack', 'convert'):
            ck.require(len(at[k]) == 1, 'command', f'{len(at[k])} commands to {k}: {lines}')
        ck.require(at['get'][0] < at['unpack'][0] < at['convert'][0], 'order', f'commands in the order {lines}')
        for i in at['remove']:
            ck.require(i > at['convert'][0], 'order', f'the raw files are removed before they are converted: {lines}')
            names = [os.path.normpath(a) for a in lines[i].split()[1:] if not a.startswith('-')]
            ck.require(set(names) <= {'cifar-10-batches-py', 'cifar-10-python.tar.gz'}, 'remove', f'{lines[i]} removes something else')
        ck.count(states=len(lines) + 1, transitions=len(lines), traces=1)


# ---- CelebA-HQ --------------------------------------------------------------------------------------------------------------
BASE = (np.arange(128 * 128 * 3).reshape(128, 128, 3) * 89 + (np.arange(128)[:, None, None] ** 2) * 3) % 251


def raw_celeba(i):
    """The image in file i (from 1): a pattern that moves with the number, which its first pixel spells."""
    x = (BASE + 37 * i).astype(np.uint8)
    x[0, 0] = i >> 16, (i >> 8) & 255, i & 255
    return x


def halve(x):
    """Antialiased linear reduction of both sides to a half: weights 1, 3, 3, 1, renormalised at the edges."""
    n = x.shape[1] // 2
    W = np.zeros((n, 2 * n))
    for i in range(n):
        for j, w in zip(range(2 * i - 1, 2 * i + 3), (1., 3., 3., 1.)):
            if 0 <= j < 2 * n:
                W[i, j] = w
    W /= W.sum(1, keepdims=True)
    return np.einsum('ai,bj,nijc->nabc', W, W, x, optimize=True)


def number(x):
    v = np.round(np.asarray(x[0, 0], float) * 255).astype(int)
    return int(v[0]) * 65536 + int(v[1]) * 256 + int(v[2])


def celeba(ck):
    from PIL import Image
    opened, done, saved = [], {}, {}
    real_resize = jax.image.resize

    class File:
        def __init__(self, i):
            self.i, self.size, self.mode, self.shape = i, (128, 128), 'RGB', (128, 128, 3)

        def __array__(self, dtype=None, copy=None):
            x = raw_celeba(self.i)
            return x if dtype is None else x.astype(dtype)

        def convert(self, mode):
            return self

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

    def fopen(name, *a, **k):
        m = re.fullmatch(r'data128x128/(\d{5})\.jpg', os.path.normpath(str(name)))
        if m is None or not 1 <= int(m[1]) <= 30000:
            raise FileNotFoundError(str(name))
        opened.append(int(m[1]))
        return File(int(m[1]))

    def resize(x, shape, method, *a, **k):
        """The real function, on some of the images when there are many (all would need tens of gigabytes)."""
        n = x.shape[0] if len(x.shape) == 4 else None
        if n is None or n <= 64:
            out = np.asarray(real_resize(jnp.asarray(x), shape, method, *a, **k))
            for q, y in zip(x if n else [x], out if n else [out]):
                done[number(q)] = True
            return out
        out = np.zeros(shape, np.float32)
        rows = sorted({0, 1, 2, 255, 256, n // 2, n - 3, n - 2, n - 1})
        rows = [r for r in rows if r < min(n, shape[0])]
        out[rows] = np.asarray(real_resize(jnp.asarray(np.asarray(x[np.array(rows)])), (len(rows), *shape[1:]), method, *a, **k))
        for r in rows:
            done[number(x[r])] = True
        return out

    def save(name, a, *_, **__):
        name = os.path.basename(str(name))
        saved[name if name.endswith('.npy') else name + '.npy'] = a

    with tempfile.TemporaryDirectory(prefix='mc-celeba-') as tmp:
        shipped('experiments/datasets/celebaHQ/convert.py', tmp, [(Image, 'open', fopen), (jax.image, 'resize', resize), (np, 'save', save), (jnp, 'save', save)])
    ck.require(sorted(opened) == list(range(1, 30001)), 'files', f'{len(set(opened))} of the 30000 images are read')
    ck.require(set(saved) == {'celeba_hq64.npy', 'celeba_hq128.npy'}, 'file', f'writes {sorted(saved)}')
    big, small = saved['celeba_hq128.npy'], saved['celeba_hq64.npy']
    ck.require(big.shape == (30000, 128, 128, 3) and small.shape == (30000, 64, 64, 3), 'shape', f'arrays of shape {big.shape} and {small.shape}')
    ck.require(big.dtype == np.float32 and small.dtype == np.float32, 'type', f'arrays of type {big.dtype} and {small.dtype}')
    for i in range(30000):
        want = raw_celeba(i + 1).astype(np.float32) / np.float32(255)
        if not np.allclose(big[i], want, rtol=0, atol=1e-6):
            ck.require(False, 'value', f'row {i} is not the image of file {i + 1:05}.jpg divided by 255')
    ck.count(states=30000, transitions=30000 * 49152)
    ck.require({1, 2, 15001, 29999, 30000} <= set(done), 'small', 'not every image is reduced')
    rows = np.array(sorted(done)) - 1
    for part in np.array_split(rows, max(1, len(rows) // 500)):
        want = halve(np.stack([raw_celeba(i + 1) for i in part]) / 255.)
        ck.close(small[part], want, 'small', f'the images of half size of files {part[0] + 1}...', tol=2e-6)
    ck.count(states=len(rows), transitions=len(rows) * 12288, traces=1)


def loads(ck):
    """The files are taken by the loader at both resolutions (fewer pixels differ than images, so tiny pixels do)."""
    with tempfile.TemporaryDirectory(prefix='mc-celeba-') as tmp:
        for res in (64, 128):
            f = os.path.join(tmp, 'a.npy')
            a = np.lib.format.open_memmap(f, 'w+', np.float32, (1004, res, res, 3))
            a[:, 0, 0, 0] = np.arange(1004) / 1004
            a[:, -1, -1, 2] = 1 - np.arange(1004) / 1004
            a.flush()
            for test, want in ((True, range(1000)), (False, range(1000, 1004))):
                ds = CelebAHQ(jax.random.PRNGKey(1), f, resolution=res, test=test)
                x = np.asarray(ds.xs)
                ids = np.round(x[:, 0, 0, 0] * 1004).astype(int)
                ck.require(x.shape[1:] == (res, res, 3) and sorted(ids) == list(want), 'loader', 'the loaded images')
                ck.close(x[:, -1, -1, 2], 1 - ids / 1004, 'loader', 'an item is altered', tol=1e-6)
                ck.count(states=len(x), transitions=1, traces=1)


# ---- keys -------------------------------------------------------------------------------------------------------------------
def keys(ck):
    with tempfile.TemporaryDirectory(prefix='mc-keys-') as tmp:
        shipped('experiments/generate_rng_keys.py', tmp)
        ck.require(os.listdir(tmp) == ['keys.npy'], 'file', f'writes {os.listdir(tmp)}')
        k = np.load(os.path.join(tmp, 'keys.npy'))
    ship = np.load(os.path.join(rng.REPO, 'experiments/keys.npy'))
    ck.require(k.shape == (1000, 2) and k.dtype == np.uint32, 'keys', f'keys of shape {k.shape} and type {k.dtype}')
    ck.require(len({tuple(r) for r in k.tolist()}) == 1000, 'keys', 'two keys are the same')
    ck.require(np.array_equal(k, ship), 'keys', 'the shipped keys are not those that the script generates')
    first = [int(jax.random.bits(jnp.asarray(r), dtype=jnp.uint32)) for r in k]
    ck.require(len(set(first)) > 990, 'keys', 'keys give the same draws')
    ck.count(states=1000, transitions=1000, traces=1)


def run(ck):
    ck.case('cifar10', cifar, ck)
    ck.case('cifar10-command', downloads, ck)
    ck.case('celeba', celeba, ck)
    ck.case('celeba-loader', loads, ck)
    ck.case('keys', keys, ck)
    ck.bound('complete raw data of the real sizes: 60000 images of 32 x 32 and 30000 images of 128 x 128 pixels, every value of a byte, every pixel and channel; '
             'the reduction to half size is evaluated on nine images')
    ck.assume('raw images are synthetic; decoding of JPEG files is replaced')

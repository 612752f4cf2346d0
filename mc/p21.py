"""Image corruptions, for every draw, against an independent numpy specification."""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from mc import p08
from mc.explore import explore, conformance, Noise, replays
from mc.report import Violation
from fbs.data.images import Image, normalise


class Pictures(Image):
    def __init__(self, task, shape):
        self.n, self.task, self.image_shape = 1, task, shape


def pics(shape, k=3):
    """Strictly positive images with all pixels different, and a smooth one."""
    n = int(np.prod(shape))
    r = np.random.default_rng(3)
    a = (1. + np.arange(n).reshape(shape)) / n
    return np.stack([a, r.permutation(n).reshape(shape) / n + 0.01, 0.5 + 0.4 * np.sin(3 * a)])[:k]


def conform(ck, fn, inits, law, n=10):
    try:
        ck.count(traces=conformance(fn, inits, law, n, len(inits[0])))
    except AssertionError as e:
        raise Violation('conformance', str(e))


def corruptions(ds, how, s):
    """The corruption called directly, and chosen by the name of the task."""
    direct = dict(paint=lambda k, x: ds.paint(k, x, s), downsample=lambda k, x: ds.downsample(k, x),
                  conv=lambda k, x: ds.conv(k, x, s))[how]
    return (('direct', direct), ('task', lambda k, x: ds.corrupt(k, x)))


def paint(ck, shape, s, word):
    h, w, c = shape
    ds = Pictures(f'{word}-{s}', shape)
    X = pics(shape)
    hs = [((h - s) * i) // 3 for i in range(4)]
    ws = [((w - s) * i) // 3 for i in range(4)]
    want = {}
    for i, j in itertools.product(hs, ws):
        want[(i, j)] = want.get((i, j), 0.) + 1 / 16
    for label, fn in corruptions(ds, 'paint', s):
        law = explore(fn, (X,), uniform=2, chunk=64)
        ck.count(law)
        out = np.asarray(law.out)
        ck.require(out.shape[1:] == shape, 'shape', f'{label}: painted image of shape {out.shape[1:]}')
        got = [{} for _ in X]
        for r in range(len(law.w)):
            x = X[law.init[r]]
            z = out[r] == 0
            ck.require(np.array_equal(out[r][~z], x[~z]), 'keep', f'{label}: pixels outside the square change')
            ij = np.argwhere(z)
            ck.require(len(ij) == s * s * c, 'square', f'{label}: {len(ij)} zero values, expected {s * s * c}')
            i, j = int(ij[:, 0].min()), int(ij[:, 1].min())
            ck.require(i + s <= h and j + s <= w and z[i:i + s, j:j + s].all(), 'square', f'{label}: the zero pixels are not a square')
            g = got[law.init[r]]
            g[(i, j)] = g.get((i, j), 0.) + law.w[r]
        for g in got:
            ck.require(set(g) == set(want), 'places', f'{label}: squares at {sorted(g)}, expected {sorted(want)}')
            ck.close([g[k] for k in want], list(want.values()), 'probability', f'{label}: places are not equally likely', tol=1e-9)
        conform(ck, fn, (X,), law)
    ck.sample(task=ds.task, shape=shape, places=sorted(want))


def downsample(ck, shape, word):
    w, h, c = shape
    ds = Pictures(word, shape)
    X = pics(shape)
    for label, fn in corruptions(ds, 'downsample', 0):
        law = explore(fn, (X,), uniform=2, chunk=8)
        ck.count(law)
        out = np.asarray(law.out)
        ck.require(out.shape[1:] == shape, 'shape', f'{label}: image of shape {out.shape[1:]}')
        prob = np.zeros((len(X), 2))
        for r in range(len(law.w)):
            x = X[law.init[r]]
            fits = []
            for q, ratio in enumerate((4, 8)):
                a = out[r].reshape(w // ratio, ratio, h // ratio, ratio, c)
                b = x.reshape(w // ratio, ratio, h // ratio, ratio, c)
                const = (a == a[:, :1, :, :1]).all()
                v = a[:, 0, :, 0]  # (w/r, h/r, c)
                inside = (b == v[:, None, :, None]).all(-1).any(axis=(1, 3)).all()
                fits.append(const and inside)
            ck.require(any(fits), 'blocks', f'{label}: the image is not made of blocks constant with one of their pixels')
            # 8-blocks are also constant on 4-blocks but with pixels of other blocks, so exactly one fits
            ck.require(sum(fits) == 1, 'blocks', f'{label}: the down-sampling ratio is ambiguous')
            prob[law.init[r], int(np.argmax(fits))] += law.w[r]
        ck.close(prob, np.full((len(X), 2), 0.5), 'ratio', f'{label}: the ratios are not equally likely', tol=1e-9)
        conform(ck, fn, (X,), law)


def kernel(k, variance):
    g = np.linspace(-1, 1, k) if k > 1 else np.array([-1.])
    return np.exp(-g[:, None] ** 2 / variance) * np.exp(-g[None, :] ** 2 / variance)


def blur(x, k, variance):
    """Every channel convolved (with zeros outside) and rescaled to [0, 1]."""
    h, w, c = x.shape
    K = kernel(k, variance)
    lo = (k - 1) // 2
    p = np.zeros((h + k - 1, w + k - 1, c))
    p[lo:lo + h, lo:lo + w] = x
    y = np.zeros_like(x)
    for a in range(k):
        for b in range(k):
            y += K[a, b] * p[a:a + h, b:b + w]
    lo_, hi_ = y.min(axis=(0, 1)), y.max(axis=(0, 1))
    return (y - lo_) / np.where(hi_ > lo_, hi_ - lo_, 1.)


def conv(ck, shape, k):
    ds = Pictures(f'deconv-{k}', shape)
    X = [*pics(shape), np.eye(shape[0], shape[1])[:, :, None] * np.eye(shape[2])[0]]
    for label, fn in corruptions(ds, 'conv', k):
        no = Noise(fn, jnp.asarray(X[0]))
        ck.require(no.nu == 1 and no.nz == 0 and not no.radices, 'draws', f'{label}: one uniform draw is expected')
        u = np.linspace(0.1, 5., 41 if not ck.thorough else 321)
        g = (u - 0.1) / 4.9
        g = np.clip(g, 0, 1 - 1e-12)
        for x in X:
            out = no.batch(jnp.asarray(x), u=g[:, None])
            ck.count(states=len(g), transitions=len(g))
            ck.require(out.shape[1:] == shape, 'shape', f'{label}: blurred image of shape {out.shape[1:]}')
            for v, y in zip(0.1 + 4.9 * g, out):
                ck.close(y, blur(x, k, v), 'blur', f'{label}: image blurred with a {k} x {k} kernel of variance {v}', tol=1e-6)
        replays(ck, no, 3, jnp.asarray(X[1]), tol=1e-6)
    ck.sample(task=ds.task, shape=shape, variances=len(u))


def joining(ck, shape, lead):
    ds = Pictures('supr', shape)
    n = int(np.prod(lead, dtype=int)) * int(np.prod(shape))
    x = np.arange(1., n + 1).reshape(lead + shape)
    y = np.sin(x)
    xy = np.asarray(ds.concat(jnp.asarray(x), jnp.asarray(y)))
    ck.require(xy.shape == lead + shape[:2] + (2 * shape[2],), 'shape', f'joined images of shape {xy.shape}')
    a, b = ds.unpack(jnp.asarray(xy))
    ck.require(np.array_equal(a, x) and np.array_equal(b, y), 'inverse', 'splitting a joined pair does not return it')
    z = np.cos(np.arange(n * 2.)).reshape(xy.shape)
    a, b = ds.unpack(jnp.asarray(z))
    ck.require(np.array_equal(ds.concat(a, b), z), 'inverse', 'joining a split pair does not return it')
    e = np.asarray(ds.concat(jnp.asarray(x), jnp.asarray(y), expand=True))
    ck.require(e.shape == lead + shape + (2,) and np.array_equal(e[..., 0], x) and np.array_equal(e[..., 1], y), 'expand',
               'the expanded pair')
    ck.count(states=3, transitions=5)


def limits(ck):
    vals = (-1e9, -1., -1e-12, -0., 0., 1e-12, 0.3, 0.5, 1 - 1e-12, 1., 1 + 1e-12, 2., 1e9)
    for combo in itertools.product(vals, repeat=2):
        for shape in ((1, 2, 1), (2, 1, 1), (1, 1, 2), (2,)):
            x = np.array(combo).reshape(shape)
            for out in (normalise(jnp.asarray(x)), normalise(jnp.asarray(x), method='clip')):
                ck.close(out, np.clip(x, 0, 1), 'clip', f'clipping {combo}', tol=0)
    ck.count(states=len(vals) ** 2, transitions=8 * len(vals) ** 2)
    for v in itertools.product((-1., 0., 0.5, 4.), repeat=4):
        x = np.array(v)
        for im in (x.reshape(2, 2, 1), x.reshape(2, 1, 2), x.reshape(2, 1, 2, 1), x.reshape(1, 4, 1)):
            lo, hi = im.min(axis=(-2, -3), keepdims=True), im.max(axis=(-2, -3), keepdims=True)
            want = (im - lo) / np.where(hi > lo, hi - lo, 1.)
            ck.close(normalise(jnp.asarray(im), method='norm'), want, 'rescale', f'rescaling {v} of shape {im.shape}', tol=1e-12)
    ck.count(states=4 ** 5, transitions=4 ** 5)


def unknown(ck):
    try:
        Pictures('none', (4, 4, 1)).corrupt(jax.random.PRNGKey(0), jnp.ones((4, 4, 1)))
    except ValueError:
        ck.require(True, 'unknown', '')
    else:
        ck.require(False, 'unknown', 'an unknown task is accepted')


def run(ck):
    for h, w in ((5, 5), (4, 7), (8, 6), (9, 9), (3, 3)) + (((12, 5), (10, 10), (11, 6)) if ck.thorough else ()):
        for s in range(1, min(h, w) + 1):
            ck.case(f'paint-{s}-{h}x{w}', paint, ck, (h, w, 1 + (h + s) % 3), s, ('inpaint', 'inpainting')[s % 2])
    for (h, w, c), s in (((28, 28, 1), 15), ((32, 32, 3), 15), ((64, 64, 3), 32), ((40, 28, 1), 20)):
        ck.case(f'full-paint-{s}-{h}x{w}', paint, ck, (h, w, c), s, 'inpaint')
    for shape in ((32, 32, 3), (64, 64, 3), (64, 32, 1)):
        ck.case(f'full-downsample-{shape[0]}x{shape[1]}', downsample, ck, shape, 'supr')
    for shape, word in (((8, 8, 1), 'supr'), ((16, 8, 3), 'supr-4'), ((8, 24, 2), 'supr'), ((16, 16, 3), 'supr-4')):
        ck.case(f'downsample-{shape[0]}x{shape[1]}x{shape[2]}', downsample, ck, shape, word)
    for shape in ((5, 5, 1), (4, 7, 1), (3, 4, 2), (4, 3, 3), (8, 8, 3)):
        for k in (2, 3, 5) + ((1, 4, 7) if ck.thorough else ()):
            ck.case(f'blur-{k}-{shape[0]}x{shape[1]}x{shape[2]}', conv, ck, shape, k)
    for shape in ((2, 3, 1), (3, 2, 2), (2, 2, 3)):
        for lead in ((), (2,), (2, 3)):
            ck.case(f'joining-{shape}-{lead}', joining, ck, shape, lead)
    ck.case('limits', limits, ck)
    ck.case('unknown', unknown, ck)
    p08.keys(ck, 'image-')
    ck.bound('painting: 5 image sizes, all square sizes, all 16 draws; down-sampling: 4 shapes, both ratios; blurring: 5 shapes, '
             'kernels 2, 3, 5, 41 variances over the whole range; clipping: all pairs from 13 values next to the limits')
    ck.assume('down-sampling is specified for images whose sides 8 divides')

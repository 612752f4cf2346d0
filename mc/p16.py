"""Matrix and Gaussian utilities on every matrix of a grid, against their defining equations."""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from fbs.utils import sqrtm, bures_dist, kl
from mc.p10 import expm, lti


def psd(d, ints, scale=1.):
    """L L^T for every lower-triangular L over the integers: all positive semi-definite, many singular."""
    seen, res = set(), []
    for v in itertools.product(ints, repeat=d * (d + 1) // 2):
        L = np.zeros((d, d))
        L[np.tril_indices(d)] = v
        A = scale * L @ L.T
        k = tuple(A.ravel())
        if k not in seen:
            seen.add(k)
            res.append(A)
    return np.array(res)


def root(A):
    w, V = np.linalg.eigh(A)
    return (V * np.sqrt(np.clip(w, 0, None))) @ V.T


def square_root(ck, mats, method):
    kw = {} if method is None else dict(method=method)
    f = lambda A: sqrtm(A, **kw)
    out = np.asarray(jax.jit(jax.vmap(f))(jnp.asarray(mats))) if method != 'other' else \
        np.stack([np.asarray(f(jnp.asarray(A))) for A in mats])
    ck.count(states=len(mats), transitions=len(mats))
    scale = np.maximum(1., np.abs(mats).max(axis=(1, 2)))
    for A, R, s in zip(mats, out, scale):
        sing = np.linalg.eigvalsh(A).min() < 1e-9 * s
        tol = 1e-7 if (sing and method == 'other') else 1e-8
        ck.require(np.isfinite(R).all(), 'finite', f'square root of {A.tolist()} is {R.tolist()}', matrix=A)
        ck.close(R / np.sqrt(s), R.T / np.sqrt(s), 'symmetric', f'square root of {A.tolist()} is symmetric', tol=tol, matrix=A)
        ck.close(R @ R / s, A / s, 'square', f'square root of {A.tolist()} squares to it', tol=tol, matrix=A)
        ck.close(R / np.sqrt(s), root(A) / np.sqrt(s), 'psd', f'the root of {A.tolist()} is the positive one', tol=2e-4 if sing else 1e-7, matrix=A)
    for A in mats[::max(1, len(mats) // 20)]:
        R = np.asarray(sqrtm(jnp.asarray(A), **kw))
        s = max(1., np.abs(A).max())
        ck.close(R @ R / s, A / s, 'square', 'plain call', tol=1e-7)
        ck.count(traces=1)
    ck.sample(method=method, matrix=mats[-1], root=out[-1])


def w2(m0, A, m1, B):
    R = root(A)
    return ((m0 - m1) ** 2).sum() + np.trace(A) + np.trace(B) - 2 * np.sqrt(np.clip(np.linalg.eigvalsh(R @ B @ R), 0, None)).sum()


def bures(ck, mats, means):
    f = jax.jit(jax.vmap(bures_dist))
    rows = [(a, A, b, B) for A, B in itertools.product(mats, repeat=2) for a, b in means]
    got = np.asarray(f(*(jnp.asarray(np.array([r[i] for r in rows])) for i in range(4))))
    ck.count(states=len(rows), transitions=len(rows))
    want = np.array([w2(*r) for r in rows])
    for r, g, w in zip(rows, got, want):
        s = max(1., np.abs(r[1]).max(), np.abs(r[3]).max())
        ck.close(g / s, w / s, 'bures', f'distance of N({r[0].tolist()}, {r[1].tolist()}) and N({r[2].tolist()}, '
                 f'{r[3].tolist()})', tol=1e-6)
        ck.require(g / s > -1e-6, 'non-negative', 'the distance is non-negative')
        if np.array_equal(r[0], r[2]) and np.array_equal(r[1], r[3]):
            ck.close(g / s, 0., 'zero', 'the distance of equal laws is zero', tol=1e-6)
    a = [float(bures_dist(*(jnp.asarray(v) for v in rows[k]))) for k in range(0, len(rows), max(1, len(rows) // 20))]
    ck.close(a, want[::max(1, len(rows) // 20)], 'bures', 'plain call', tol=1e-5)
    ck.count(traces=len(a))


def kl_ref(m0, A, m1, B):
    d = len(m0)
    iB = np.linalg.inv(B)
    return 0.5 * (np.trace(iB @ A) - d + (m1 - m0) @ iB @ (m1 - m0) + np.linalg.slogdet(B)[1] - np.linalg.slogdet(A)[1])


def kullback(ck, mats, means):
    mats = [A for A in mats if np.linalg.eigvalsh(A).min() > 1e-6 * min(1., np.abs(A).max())]
    rows = [(a, A, b, B) for A, B in itertools.product(mats, repeat=2) for a, b in means]
    got = np.asarray(jax.jit(jax.vmap(kl))(*(jnp.asarray(np.array([r[i] for r in rows])) for i in range(4))))
    ck.count(states=len(rows), transitions=len(rows))
    want = np.array([kl_ref(*r) for r in rows])
    size = np.maximum(1., np.abs(want))
    ck.require((got / size > -1e-7).all(), 'non-negative', 'the divergence is non-negative')
    k = int(np.argmax(np.abs(got - want) / size))
    ck.close(got / size, want / size, 'kl', f'divergence, e.g. of N({rows[k][0].tolist()}, {rows[k][1].tolist()}) from N({rows[k][2].tolist()}, '
             f'{rows[k][3].tolist()})', tol=1e-7)
    a = [float(kl(*(jnp.asarray(v) for v in rows[k]))) for k in range(0, len(rows), max(1, len(rows) // 20))]
    ck.close(a / size[::max(1, len(rows) // 20)], (want / size)[::max(1, len(rows) // 20)], 'kl', 'plain call', tol=1e-7)
    ck.count(traces=len(a))
    ck.sample(pair=rows[1], divergence=got[1])


def one_dim_definition(ck):
    """The definitions themselves, by quadrature, so that the reference formulas are not taken on trust."""
    x, w = np.polynomial.hermite_e.hermegauss(40)
    w = w / w.sum()
    for m0, v0, m1, v1 in itertools.product((0., 1.), (0.5, 2.), (-1., 0.3), (0.7, 1.5)):
        z = m0 + np.sqrt(v0) * x
        lp = lambda m, v: -0.5 * (z - m) ** 2 / v - 0.5 * np.log(v)
        k = (w * (lp(m0, v0) - lp(m1, v1))).sum()
        a = [jnp.array([m0]), jnp.array([[v0]]), jnp.array([m1]), jnp.array([[v1]])]
        ck.close(kl(*a), k, 'kl', f'divergence of N({m0}, {v0}) from N({m1}, {v1})', tol=1e-8)
        t = (w * (z - (m1 + np.sqrt(v1 / v0) * (z - m0))) ** 2).sum()
        ck.close(bures_dist(*a), t, 'bures', 'cost of the monotone map', tol=1e-8)
        ck.count(states=1, transitions=2, traces=1)


def large(ck, d):
    """Matrices of the size and kind of the experiments (Gaussian processes), at any scale: determinants leave the range of floating point."""
    r = np.random.default_rng(d)
    t = np.linspace(0., 5., d)
    gp = np.exp(-np.abs(t[:, None] - t[None]))
    G = r.normal(size=(d, 2 * d))
    A, B = gp + .1 * np.eye(d), G @ G.T / d + .3 * np.outer(t, t) / d
    m0, m1 = r.normal(size=(2, d))
    for sa, sb in itertools.product((1e-12, 1e-6, 1., 1e8), repeat=2):
        c = np.sqrt(min(sa, sb))
        args = [c * m0, sa * A, c * m1, sb * B]
        got, want = float(kl(*(jnp.asarray(v) for v in args))), kl_ref(*args)
        ck.close(got / abs(want), want / abs(want), 'kl', f'divergence of Gaussians of dimension {d}, covariances of scale {sa} and {sb}', tol=1e-6)
        s = max(sa, sb)
        ck.close(float(bures_dist(*(jnp.asarray(v) for v in args))) / s, w2(*args) / s, 'bures', f'distance of Gaussians of dimension {d}, scales {sa} and {sb}', tol=1e-6 * d)
        ck.count(states=1, transitions=2, traces=1)
    for s, M in itertools.product((1e-12, 1., 1e8), (A, B, gp, np.outer(t, t))):
        R = np.asarray(sqrtm(jnp.asarray(s * M))) / np.sqrt(s)
        ck.close(R @ R, M, 'square', f'square root of a matrix of dimension {d} and scale {s}', tol=1e-7 * np.abs(M).max())
        ck.close(R, R.T, 'symmetric', f'square root of a matrix of dimension {d} and scale {s}', tol=1e-7 * np.abs(M).max())
        ck.require(np.linalg.eigvalsh((R + R.T) / 2).min() > -1e-4, 'psd', f'the root of a matrix of dimension {d} is not positive')
        ck.count(states=1, transitions=1, traces=1)


def run(ck):
    for d in (20, 100) if ck.thorough else (20, 60):
        ck.case(f'large-{d}', large, ck, d)
    one, two = psd(1, (0, 1, 2, 3)), psd(2, (-2, -1, 0, 1, 2))
    three = psd(3, (-1, 0, 1) if not ck.thorough else (-1, 0, 1, 2))
    if not ck.thorough:
        three = three[::2]
    scaled = np.concatenate([s * psd(2, (-1, 0, 2)) for s in (1e-6, 1e-3, 1e4)])
    dd = np.array([np.diag([1e-8, 1.]), np.diag([1e6, 1e-3]), np.array([[1., 1 - 1e-9], [1 - 1e-9, 1.]]),
                   np.array([[1e4, 1.], [1., 1e-3]])])
    for name, mats in (('1', one), ('2', two), ('3', three), ('2-scaled', scaled), ('2-ill', dd)):
        for method in (None, 'eigh'):
            ck.case(f'sqrtm-{name}-{method}', square_root, ck, mats, method)
    pd = lambda ms: np.array([A for A in ms if np.linalg.eigvalsh(A).min() > 1e-6 * max(1., np.abs(A).max())])
    for name, mats in (('1', pd(one)), ('2', pd(two)), ('3', pd(three)[:12 if not ck.thorough else 200])):
        ck.case(f'sqrtm-{name}-other', square_root, ck, mats[:60 if not ck.thorough else 400], 'other')
    for d, mats in ((1, one), (2, two[::2] if not ck.thorough else two), (3, three[::12])):
        z, a, b = np.zeros(d), np.array([1., -2., 0.5])[:d], np.array([-0.3, 1., 2.])[:d]
        means = [(z, z), (a, b), (a, a), (b, z)]
        ck.case(f'bures-{d}', bures, ck, mats, means)
        ck.case(f'kl-{d}', kullback, ck, mats, means)
        few = pd(mats)[::max(1, len(mats) // 6)]
        wide = np.concatenate([few * s for s in (1e-10, 1e-6, 1e-3, 1., 1e5)])
        ck.case(f'kl-{d}-scaled', kullback, ck, wide, [(z, z), (a * 1e-3, b * 1e-3)])
        ck.case(f'bures-{d}-scaled', bures, ck, wide, [(z, z), (a * 1e-3, b * 1e-3)])
    vals = (-1., 0., 0.5)
    two = [np.array(v).reshape(2, 2) for v in itertools.product(vals, repeat=4)]
    for i in range(0, len(two), 27):
        ck.case(f'lti-2-{i // 27}', lti, ck, 2, two[i:i + 27] if ck.thorough else two[i:i + 27:3])
    ck.case('lti-1', lti, ck, 1, [np.array([[v]]) for v in (-100., -20., -2., -0.5, 0., 0.7)])
    three = [np.array([[0., 1., 0.], [0., 0., 1.], [-1., -2., -1.5]]), np.array([[-1., 0.3, 0.], [0.2, -0.7, 0.], [0., 1., 0.4]])]
    ck.case('lti-3', lti, ck, 3, three)
    ck.case('definition', one_dim_definition, ck)
    ck.bound('every L L^T with integer lower-triangular L (entries up to 2 in dimension 2, 1 in dimension 3), scaled and '
             'ill-conditioned ones; all pairs of them for the distances')
    ck.bound('81 2x2 drift matrices x 4 noise matrices x 3 durations, and some 1x1 and 3x3 ones')

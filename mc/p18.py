"""Network wrappers, embeddings and pixel shuffling: every configuration of a grid, exact relations."""
import itertools
import math
import numpy as np
import jax
import jax.numpy as jnp
from flax import linen
from jax.flatten_util import ravel_pytree
from fbs.nn import make_st_nn, make_nn_with_time, sinusoidal_embedding
from fbs.nn.utils import PixelShuffle
from fbs.nn.models import CrescentMLP, GMSBMLP, MNISTResConv, MNISTAutoEncoder, make_simple_st_nn
from fbs.nn.unet import UNet

KEY = jax.random.PRNGKey(11)


class Plain(linen.Module):
    """A transparent network: sum_j W_ij x_j + t v_i + t^2 x_i u + b_i, for any batch shape."""
    d: int

    @linen.compact
    def __call__(self, x, t):
        init = linen.initializers.normal(1.)
        W = self.param('W', init, (self.d, self.d), jnp.float64)
        v = self.param('v', init, (self.d,), jnp.float64)
        u = self.param('u', init, (1,), jnp.float64)
        b = self.param('b', init, (self.d,), jnp.float64)
        t = jnp.asarray(t)[..., None]
        return x @ W.T + t * v + t ** 2 * x * u + b


def plain_np(p, x, t):
    t = np.asarray(t)[..., None]
    return x @ p['W'].T + t * p['v'] + t ** 2 * x * p['u'] + p['b']


def same_tree(ck, a, b, sig, msg):
    la, ta = jax.tree_util.tree_flatten(a)
    lb, tb = jax.tree_util.tree_flatten(b)
    ck.require(ta == tb, sig, f'{msg}: different structure')
    for x, y in zip(la, lb):
        ck.require(x.shape == y.shape and x.dtype == y.dtype and np.array_equal(x, y), sig, msg)


def flattening(ck, ap, a2d, ref):
    """array <-> tree is a bijection on all coordinates."""
    same_tree(ck, a2d(ap), ref, 'parameters', 'the flattened parameters do not rebuild those of the network')
    n = ap.shape[0]
    ck.require(ap.ndim == 1 and n == sum(int(np.prod(l.shape)) for l in jax.tree_util.tree_leaves(ref)), 'size',
               f'{n} parameters')
    probe = jnp.arange(n, dtype=ap.dtype)
    leaves = [np.asarray(l, float).ravel() for l in jax.tree_util.tree_leaves(a2d(probe))]
    ck.require(np.array_equal(np.sort(np.concatenate(leaves)), np.arange(n)), 'bijection', 'a parameter is lost or doubled')
    ck.require(np.array_equal(ravel_pytree(a2d(probe))[0], probe), 'bijection', 'flattening again permutes the parameters')
    ck.count(states=n, transitions=2)


def transparent(ck, d, batch, lead):
    net = Plain(d)
    ap, a2d, f = make_st_nn(KEY, net, (d,), batch)
    flattening(ck, ap, a2d, net.init(KEY, jnp.ones((batch, d)), jnp.ones((batch,))))
    x = np.sin(np.arange(1., 1 + np.prod(lead, dtype=int) * d)).reshape(*lead, d)
    tv = np.linspace(-1., 2., int(np.prod(lead, dtype=int))).reshape(lead)
    n = ap.shape[0]
    rows = np.concatenate([np.eye(n), np.asarray(ap)[None], np.cos(np.arange(3 * n)).reshape(3, n)])
    for t in (tv, 0.7, 0.):
        out = np.asarray(jax.jit(jax.vmap(lambda p: f(jnp.asarray(x), jnp.asarray(t), p)))(jnp.asarray(rows)))
        for r, o in zip(rows, out):
            p = {k: np.asarray(v) for k, v in a2d(jnp.asarray(r))['params'].items()}
            ck.close(o, plain_np(p, x, t), 'wrapper', f'wrapped network at time {np.ravel(t)[:2]}, leading shape {lead}', tol=1e-10)
        ck.count(states=len(rows), transitions=len(rows))
    ck.close(f(jnp.asarray(x), jnp.asarray(tv), ap), plain_np({k: np.asarray(v) for k, v in a2d(ap)['params'].items()}, x, tv), 'wrapper',
             'plain call', tol=1e-10)
    ck.count(traces=1)
    ck.sample(dim=d, batch=batch, leading=lead, parameters=n)


class Joint(linen.Module):
    d: int

    @linen.compact
    def __call__(self, z):
        W = self.param('W', linen.initializers.normal(1.), (self.d, self.d + 1), jnp.float64)
        b = self.param('b', linen.initializers.normal(1.), (self.d,), jnp.float64)
        return jnp.tanh(z @ W.T + b)


def with_time(ck, d, batch, scale):
    net = Joint(d)
    ap, a2d, f = make_nn_with_time(net, d, batch, scale, KEY)
    flattening(ck, ap, a2d, net.init(KEY, jnp.ones((batch, d + 1))))
    n = ap.shape[0]
    rows = np.concatenate([np.eye(n), np.asarray(ap)[None], np.cos(np.arange(2 * n)).reshape(2, n)])
    xs = np.sin(np.arange(1., 1 + 3 * d)).reshape(3, d)
    for t in (0., 0.4, 3.):
        out = np.asarray(jax.jit(jax.vmap(jax.vmap(lambda x, p: f(x, t, p), in_axes=(0, None)), in_axes=(None, 0)))(jnp.asarray(xs), jnp.asarray(rows)))
        for r, o in zip(rows, out):
            p = {k: np.asarray(v) for k, v in a2d(jnp.asarray(r))['params'].items()}
            z = np.concatenate([xs, np.full((3, 1), t * scale)], axis=1)
            ck.close(o, np.tanh(z @ p['W'].T + p['b']), 'with-time', f'network with time {t}, scale {scale}', tol=1e-10)
        ck.count(states=3 * len(rows), transitions=3 * len(rows))


def embedding(ck, dim, period):
    half = dim // 2
    fs = [1.] if half == 1 else [period ** (-i / (half - 1)) for i in range(half)]
    ts = np.concatenate([[0., 1., -2.5, 0.3], np.arange(2., 40., 7.), [1e3, 1e4]])
    want = np.array([[math.sin(t * f) for f in fs] + [math.cos(t * f) for f in fs] for t in ts])
    kw = {} if period == 10000 else dict(max_period=period)
    if dim != 64:
        kw['out_dim'] = dim
    for t, w in zip(ts, want):
        ck.close(sinusoidal_embedding(t, **kw), w, 'embedding', f'embedding of {t} of size {dim}, period {period}', tol=1e-8)
    ck.close(jax.vmap(lambda t: sinusoidal_embedding(t, **kw))(jnp.asarray(ts)), want, 'embedding', f'batched embedding of size {dim}', tol=1e-8)
    ck.close(sinusoidal_embedding(jnp.asarray(ts)[:, None], **kw), want, 'embedding', f'embedding of a column of size {dim}', tol=1e-8)
    ck.count(states=len(ts), transitions=3 * len(ts), traces=len(ts))


def odd(ck):
    for dim in (3, 5, 7, 33):
        try:
            sinusoidal_embedding(0.5, out_dim=dim)
        except NotImplementedError:
            ck.require(True, 'odd', '')
        else:
            ck.require(False, 'odd', f'odd size {dim} is accepted')


def shuffle(ck, b, h, w, s, c):
    x = np.arange(float(b * h * w * s * s * c)).reshape(b, h, w, s * s * c)
    y = np.asarray(PixelShuffle(s)(jnp.asarray(x)))
    ck.require(y.shape == (b, h * s, w * s, c), 'shape', f'shuffled shape {y.shape}')
    ck.require(np.array_equal(np.sort(y.ravel()), x.ravel()), 'bijection', 'a value is lost or doubled')
    want = np.zeros_like(y)
    for i, j, a, e in itertools.product(range(h), range(w), range(s), range(s)):
        want[:, i * s + a, j * s + e, :] = x[:, i, j, (a * s + e) * c:(a * s + e + 1) * c]
    ck.require(np.array_equal(y, want), 'shuffle', f'channel blocks go to the wrong places (scale {s}, {c} channels)')
    ck.count(states=x.size, transitions=1, traces=1)


def perturb(ap, seed):
    r = np.random.default_rng(seed)
    return jnp.asarray(np.asarray(ap) + 0.2 * r.standard_normal(ap.shape), ap.dtype)


def items(ck, name, net, dim_in, batch, vector_times, tol, squeeze=False, plain_time_init=False):
    """A batch is processed item by item; times are per item or shared; the wrapper computes what the network computes."""
    ap, a2d, f = make_st_nn(KEY, net, dim_in, batch)
    flattening(ck, ap, a2d, net.init(KEY, jnp.ones((batch, *dim_in)), jnp.ones((batch,))))
    g = jax.jit(f)  # compiled on both sides: XLA of this jax compiles softmax over axis -3 wrongly on CPU (DESIGN.md)
    B = 3
    r = np.random.default_rng(2)
    X = jnp.asarray(r.standard_normal((B, *dim_in)))
    T = jnp.asarray(np.array([0.1, 0.55, 1.3]))
    for k, p in enumerate((ap, perturb(ap, 1))):
        shared = [np.asarray(g(X, t, p)) for t in T]
        ck.require(shared[0].shape == X.shape, 'shape', f'{name}: output of shape {shared[0].shape} for input {X.shape}')
        alone = [[np.asarray(g(X[i:i + 1], t, p)).reshape(X.shape[1:]) for i in range(B)] for t in T]
        for a, t in enumerate(T):
            ck.close(shared[a], np.stack(alone[a]), 'item', f'{name}: items of a batch at time {t} against each alone', tol=tol)
        ck.close(np.asarray(g(X[jnp.array([2, 0, 1])], T[0], p)), shared[0][[2, 0, 1]], 'item', f'{name}: permuted batch', tol=tol)
        ck.close(np.asarray(g(jnp.stack([X[0], X[0] * 50, X[2] - 30]), T[0], p))[0], shared[0][0], 'item',
                 f'{name}: an item depends on the other items', tol=max(tol, 1e-3))
        if vector_times:
            mixed = np.asarray(g(X, T, p))
            ck.close(mixed, np.stack([shared[i][i] for i in range(B)]), 'time', f'{name}: times per item', tol=tol)
            if k:
                ck.require(np.abs(shared[0] - shared[2]).max() > 1e-4, 'time', f'{name}: the output ignores time')
        if squeeze:
            for i in range(B):
                ck.close(np.asarray(g(X[i], T[0], p)), shared[0][i], 'unbatched', f'{name}: an item without batch axis', tol=tol)
        ck.close(np.asarray(g(X, T[1], p)), np.asarray(jax.jit(net.apply)(a2d(p), X, T[1])), 'wrapper', f'{name}: wrapped network', tol=tol)
        if k:
            many = jnp.concatenate([X, jnp.asarray(r.standard_normal((30, *dim_in)) * 2)])   # a batch larger than any feature group
            out = np.asarray(g(many, jnp.concatenate([T, jnp.asarray(r.uniform(0., 2., 30))]) if vector_times else T[0], p))
            ck.close(out[:B], np.stack([shared[i if vector_times else 0][i] for i in range(B)]), 'item', f'{name}: items of a batch of 33 against each alone', tol=tol)
            ck.require(np.abs(shared[0][0] - shared[0][1]).max() > 1e-4, 'input', f'{name}: the output ignores its input')
        ck.count(states=3 * B, transitions=5 * B, traces=B)
    ck.sample(network=name, parameters=int(ap.shape[0]), batch=batch)


def variants(ck, kw, C, want):
    """Output channels asked for; images of several sizes with the same parameters."""
    net = UNet(dt=0.1, dim=8, dim_mults=(1, 2), resnet_block_groups=4, **kw)
    ap, a2d, f = make_st_nn(KEY, net, (8, 8, C), 2)
    for h, w in ((8, 8), (4, 8), (8, 12)):
        x = jnp.asarray(np.random.default_rng(0).standard_normal((2, h, w, C)))
        out = f(x, jnp.array([0.1, 0.9]), ap)
        ck.require(out.shape == (2, h, w, want), 'shape', f'network {kw}: output of shape {out.shape} for {x.shape}')
        one = f(x[1], jnp.array(0.9), ap)
        ck.require(one.shape == (h, w, want), 'shape', f'network {kw}: output of shape {one.shape} for {x.shape[1:]}')
        ck.close(one, out[1], 'item', f'network {kw}: item alone', tol=2e-4)
        ck.count(states=2, transitions=2)


def simple(ck, dim, batch, embed):
    kw = {} if embed is None else dict(embed_dim=embed)
    net, dp, ap, a2d, f = make_simple_st_nn(KEY, (dim,), batch, **kw)
    same_tree(ck, dp, a2d(ap), 'parameters', 'tree and array of the parameters differ')
    flattening(ck, ap, a2d, net.init(KEY, jnp.ones((batch, dim)), jnp.ones((batch,))))
    r = np.random.default_rng(0)
    X, T = jnp.asarray(r.standard_normal((3, dim))), jnp.array([0.2, 3., 10.])
    for p in (ap, perturb(ap, 3)):
        out = np.asarray(f(X, T, p))
        ck.require(out.shape == X.shape, 'shape', f'output of shape {out.shape}')
        ck.close(out, np.stack([np.asarray(f(X[i], T[i], p)) for i in range(3)]), 'item', 'items alone', tol=1e-9)
        ck.close(f(X, T[1], p), np.asarray(f(X, jnp.full(3, T[1]), p)), 'time', 'shared time', tol=1e-9)
        ck.close(f(X, T, p), net.apply(a2d(p), X, T), 'wrapper', 'wrapped network', tol=1e-9)
        ck.count(states=3, transitions=8)
    mine = Plain(dim)
    n2, dp2, ap2, a2d2, f2 = make_simple_st_nn(KEY, (dim,), batch, mine)
    ck.require(n2 is mine, 'model', 'the given network is not used')
    same_tree(ck, dp2, a2d2(ap2), 'parameters', 'tree and array of the parameters differ')
    ck.close(f2(X, T, ap2), plain_np({k: np.asarray(v) for k, v in dp2['params'].items()}, np.asarray(X), T), 'wrapper', 'given network', tol=1e-9)


def auto_encoder(ck):
    net = MNISTAutoEncoder()
    x = jnp.asarray(np.random.default_rng(0).standard_normal((2, 1568)))
    d = net.init(KEY, x[0], jnp.array(1.))
    ap, a2d = ravel_pytree(d)
    flattening(ck, ap, a2d, d)
    for t in (0., 2.):
        out = net.apply(d, x[0], jnp.array(t))
        ck.require(out.shape == (1568,) and np.isfinite(out).all(), 'shape', f'output of shape {out.shape}')


def run(ck):
    for d, batch, lead in itertools.product((1, 2, 3), (1, 2, 4), ((), (1,), (3,), (2, 2))):
        ck.case(f'transparent-{d}-{batch}-{lead}', transparent, ck, d, batch, lead)
    for d, batch, scale in itertools.product((1, 2, 3), (1, 3), (1., 0.5, 20.)):
        ck.case(f'with-time-{d}-{batch}-{scale}', with_time, ck, d, batch, scale)
    for dim in range(2, 66 if not ck.thorough else 258, 2):
        ck.case(f'embedding-{dim}', embedding, ck, dim, 10000)
    for dim, period in itertools.product((2, 4, 6, 32, 128), (1, 10, 100, 10 ** 6)):
        ck.case(f'embedding-{dim}-{period}', embedding, ck, dim, period)
    ck.case('odd', odd, ck)
    for b, h, w, s, c in itertools.product((1, 2), (1, 2, 3), (1, 2, 3), (1, 2, 3), (1, 2, 3)):
        ck.case(f'shuffle-{b}-{h}-{w}-{s}-{c}', shuffle, ck, b, h, w, s, c)
    for batch in (1, 2):
        ck.case(f'crescent-{batch}', items, ck, 'CrescentMLP', CrescentMLP(dt=0.1), (3,), batch, True, 2e-4, True)
        ck.case(f'gmsb-{batch}', items, ck, 'GMSBMLP', GMSBMLP(dim=4, dt=0.5), (4,), batch, True, 2e-4)
    for dec in ('pixel_shuffle', 'resize'):
        ck.case(f'resconv-{dec}', items, ck, f'MNISTResConv {dec}', MNISTResConv(dt=0.1, decoder=dec), (784,), 1, False, 2e-3, True)
    for ups, batch, C, dims in itertools.product(('resize', 'pixel_shuffle'), (2,) if not ck.thorough else (1, 2, 3), (1, 2),
                                                 ((1, 2), (1, 2, 4)) if ck.thorough else ((1, 2),)):
        ck.case(f'unet-{ups}-{batch}-{C}-{dims}', items, ck, f'UNet {ups}',
                UNet(dt=0.1, dim=8, upsampling=ups, dim_mults=dims, resnet_block_groups=4), (8, 8, C), batch, True, 1e-3, True)
    for kw, C, want in ((dict(learnt_variance=True), 2, 4), (dict(out_dim=5), 1, 5), (dict(init_dim=12), 1, 1),
                        (dict(upsampling='pixel_shuffle', out_dim=1, learnt_variance=True), 2, 1)):
        ck.case(f'unet-{"-".join(kw)}', variants, ck, kw, C, want)
    for dim, batch, embed in itertools.product((2, 3), (1, 2, 5), (None, 16)):
        ck.case(f'simple-{dim}-{batch}-{embed}', simple, ck, dim, batch, embed)
    ck.case('auto-encoder', auto_encoder, ck)
    ck.bound('a transparent network on all parameter coordinates, 3 dimensions, 3 batch sizes, 4 leading shapes; embeddings of all even '
             'sizes to 64; pixel shuffling on 162 shapes; every network class offered, with initial and perturbed parameters, three items '
             'and times, against each item alone')
    ck.assume('a batch of one may be returned without its batch axis; the networks themselves are judged on relations between '
              'their outputs, not on what they learn')

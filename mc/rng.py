"""Own every random draw of the code under test.

Importing this module (before anything from /repo) replaces the public entry points of ``jax.random`` and the control
transforms (``jax.jit``, ``jax.vmap``, ``jax.lax.scan`` ...) by wrappers.  While no exploration is active every wrapper
forwards to the original, so the library behaves exactly as shipped.  While an exploration is active

* a key is a *name*: ``split``/``fold_in`` return children memoised by (parent, how), as in JAX, where splitting the
  same key twice gives the same children;
* a draw is a *choice point* of finite radix with an exact probability for every outcome: ``choice``/``categorical``/
  ``randint``/``bernoulli``/``permutation`` have their true finite law (probabilities may be traced values),
  ``uniform`` is the uniform law on a finite grid, ``normal`` a finite quadrature law with exact low moments;
* drawing twice from one key with one signature returns the same outcome, as in JAX;
* loops and maps whose body draws are unrolled so that all draws are at the base trace level.

Nothing in here depends on how the code under test is written; only on the calls it makes to ``jax``.
"""
import functools
import itertools
import math
import os

os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
import numpy as np
import jax
import jax.numpy as jnp
import jax.random
import jax.scipy.special
import jax.scipy.stats
import jax.scipy.linalg
import jax.flatten_util
import flax.linen  # noqa: F401  imported before patching: flax keeps the originals
import optax  # noqa: F401
import einops  # noqa: F401

ORIG = {}
for _n in ('PRNGKey', 'key', 'split', 'fold_in', 'normal', 'uniform', 'choice', 'randint', 'permutation',
           'bernoulli', 'categorical', 'exponential', 'gumbel', 'key_data', 'wrap_key_data', 'truncated_normal',
           'multivariate_normal', 'rademacher', 'gamma', 'beta', 'dirichlet', 'laplace', 'logistic', 'poisson',
           'cauchy', 'bits', 'ball', 't', 'chisquare', 'geometric', 'loggamma', 'orthogonal', 'pareto', 'rayleigh',
           'weibull_min', 'f', 'generalized_normal', 'double_sided_maxwell', 'maxwell', 'binomial', 'lognormal',
           'triangular', 'wald'):
    if hasattr(jax.random, _n):
        ORIG['random.' + _n] = getattr(jax.random, _n)
for _n in ('jit', 'vmap', 'pmap'):
    ORIG[_n] = getattr(jax, _n)
for _n in ('scan', 'cond', 'switch', 'fori_loop', 'map', 'while_loop', 'associative_scan'):
    ORIG['lax.' + _n] = getattr(jax.lax, _n)

MAGIC = 0x5EEDC0DE


class NeedUnroll(Exception):
    """A draw happened inside a real transform: redo the transform unrolled."""


class Boundary(Exception):
    """Control reached the target state boundary of a staged exploration."""


class MergeUnsound(Exception):
    """A key whose draw was merged away is used again."""


class BudgetExceeded(Exception):
    pass


class Unsupported(Exception):
    """The code under test uses a feature that the explorer does not model."""


class World:
    """Choice points, key names and the current control position."""

    def __init__(self, uniform_points, normal_points):
        # uniform_points: values in [0, 1), equally likely, or (values, probs); a dict may distinguish scalar and vector draws.
        # normal_points: (values, probs)
        if not isinstance(uniform_points, dict):
            uniform_points = dict(scalar=uniform_points, vector=uniform_points)
        self.uprobs = {k: np.asarray(v[1], float) if isinstance(v, tuple) else None for k, v in uniform_points.items()}
        self.upts = {k: np.asarray(v[0] if isinstance(v, tuple) else v, dtype=np.float64) for k, v in uniform_points.items()}
        nv, nw = normal_points
        self.nvals, self.nprobs = np.asarray(nv, float), np.asarray(nw, float)
        self.children = {}
        self.parent = {}
        self.nkeys = 0
        self.loose = False        # feed mode: draws with too many outcomes to enumerate are allowed; the caller picks one
        self.begin(mode='off')

    # ---- one execution ------------------------------------------------------------------------------------------
    def begin(self, mode, digit_source=None):
        self.mode = mode
        self.sites = []           # (memo key, radix, digit)
        self.memo = {}
        self.weight = 1.
        self.digit_source = digit_source
        self.real_depth = 0       # inside a real transform
        self.nest = 0             # inside an unrolled transform that must not contain a boundary
        self.uses = {}            # key id -> list of (kind, ...)
        self.scan_ord = 0
        self.staging = None
        self.in_step = False
        self.feed = None          # feed mode: {'normal': flat values, 'uniform': flat values}
        self.fed = []             # feed mode: (kind, key id, shape, dtype)
        self.taken = dict(normal=0, uniform=0)

    def take(self, kind, kid, shape, dtype):
        """The next values of the continuous noise that the caller feeds to this execution."""
        if self.real_depth > 0:
            raise NeedUnroll()
        mk = (kid, kind, shape)
        self.use(kid, ('draw', (kind, shape)))
        if mk in self.memo:
            return self.memo[mk].astype(dtype)
        n = int(np.prod(shape, dtype=int))
        a = self.taken[kind]
        self.taken[kind] = a + n
        self.fed.append((kind, kid, shape, dtype))
        if self.feed is None:
            v = jnp.zeros(shape) if kind == 'normal' else jnp.full(shape, 0.5)
        else:
            v = self.feed[kind][a:a + n].reshape(shape)
        self.memo[mk] = v
        return v.astype(dtype)

    def real_key(self, kid, root):
        """The JAX key that the symbolic key stands for when the root is the JAX key `root`."""
        name = self.parent[kid]
        if name[0] == 'root':
            return root
        if name[0] == 'PRNGKey':
            return ORIG['random.PRNGKey'](name[1])
        if name[0] == 'value':
            return jnp.asarray(np.array(name[1:], np.uint32))
        up = self.real_key(name[0], root)
        if name[1] == 'split':
            n = int(np.prod(name[2], dtype=int))
            return ORIG['random.split'](up, name[2] if len(name[2]) != 1 else n).reshape(n, 2)[name[3]]
        return ORIG['random.fold_in'](up, name[2])

    # ---- keys ---------------------------------------------------------------------------------------------------
    def new_key(self, name):
        if name not in self.children:
            self.children[name] = self.nkeys
            self.parent[self.nkeys] = name
            self.nkeys += 1
        return self.children[name]

    def root(self, label='root'):
        return encode(np.array(self.new_key(('root', label))))

    def use(self, kid, what):
        self.uses.setdefault(kid, []).append(what)

    # ---- choice points ------------------------------------------------------------------------------------------
    def site(self, kid, sig, radix, prob_fn, independent=False):
        """A choice point. Returns its digit. `prob_fn(digit)` is the probability of that digit."""
        if self.real_depth > 0:
            raise NeedUnroll()
        if radix > 2 ** 40 and self.mode != 'uses' and not self.loose:
            raise BudgetExceeded(f'radix {radix} at a single draw')
        mk = (kid, sig)
        self.use(kid, ('draw', sig))
        if mk in self.memo and not independent:
            return self.memo[mk]
        n = 0
        while (mk, n) in self.memo:
            n += 1
        digit, fresh = self.digit_source(self, (mk, n), int(radix))
        if fresh and self.mode != 'uses' and radix <= 2 ** 40:
            self.weight = self.weight * prob_fn(digit)
        self.memo[mk] = digit
        self.memo[(mk, n)] = digit
        return digit


W = None  # the active world


def active():
    return W is not None and W.mode != 'off'


def encode(ids):
    ids = np.asarray(ids, dtype=np.uint32)
    out = np.empty(ids.shape + (2,), np.uint32)
    out[..., 0] = MAGIC
    out[..., 1] = ids
    return jnp.asarray(out)


def decode(key):
    if isinstance(key, jax.core.Tracer):
        if W.real_depth > 0:
            raise NeedUnroll()
        raise Unsupported('a random key became a traced value')
    a = np.asarray(key)
    if a.shape != (2,):
        raise TypeError(f'a single key is expected, got an array of shape {a.shape}')
    if int(a[0]) != MAGIC:
        return W.new_key(('value', int(a[0]), int(a[1])))
    return int(a[1])


def decompose(digit, base, n):
    """Mixed-radix digits (n,) of `digit`, least significant first, for a constant base."""
    if n == 0 or W.mode == 'uses':
        return jnp.zeros((n,), jnp.int64 if jax.config.jax_enable_x64 else jnp.int32)
    if base ** n >= 2 ** 31 and not jax.config.jax_enable_x64:
        raise BudgetExceeded('radix too large for the 32-bit mode')
    if W.loose and base ** n > 2 ** 62:
        return jnp.asarray([(int(digit) // base ** i) % base for i in range(n)])
    pw = np.array([base ** i for i in range(n)], dtype=np.int64)
    return (jnp.asarray(digit) // pw) % base


def _shape(s):
    if s is None:
        return ()
    if isinstance(s, (int, np.integer)):
        return (int(s),)
    return tuple(int(i) for i in s)


def _fdtype(dtype):
    return jax.dtypes.canonicalize_dtype(dtype)


# ---------------------------------------------------------------------------------------------------------------------
# jax.random
# ---------------------------------------------------------------------------------------------------------------------
def _wrap(name):
    def deco(fn):
        orig = ORIG.get('random.' + name)

        @functools.wraps(orig)
        def wrapper(*a, **k):
            if not active():
                return orig(*a, **k)
            return fn(*a, **k)

        setattr(jax.random, name, wrapper)
        return wrapper

    return deco


@_wrap('PRNGKey')
def _prngkey(seed, *, impl=None):
    return encode(np.array(W.new_key(('PRNGKey', int(seed)))))


@_wrap('key')
def _key(seed, *, impl=None):
    return encode(np.array(W.new_key(('PRNGKey', int(seed)))))


@_wrap('key_data')
def _key_data(keys):
    return keys


@_wrap('wrap_key_data')
def _wrap_key_data(x, *, impl=None):
    return x


@_wrap('split')
def _split(key, num=2):
    kid = decode(key)
    shape = _shape(num)
    n = int(np.prod(shape, dtype=int))
    W.use(kid, ('split', shape))
    ids = np.array([W.new_key((kid, 'split', shape, i)) for i in range(n)], dtype=np.int64).reshape(shape)
    return encode(ids)


@_wrap('fold_in')
def _fold_in(key, data):
    kid = decode(key)
    if isinstance(data, jax.core.Tracer):
        if W.real_depth > 0:
            raise NeedUnroll()
        raise Unsupported('fold_in with a traced integer')
    W.use(kid, ('fold_in', int(data)))
    return encode(np.array(W.new_key((kid, 'fold_in', int(data)))))


@_wrap('uniform')
def _uniform(key, shape=(), dtype=float, minval=0., maxval=1.):
    kid = decode(key)
    shape = _shape(shape)
    dtype = _fdtype(dtype)
    n = int(np.prod(shape, dtype=int))
    pts = W.upts['vector' if shape else 'scalar']
    M = len(pts)
    if W.mode == 'feed':
        vals = W.take('uniform', kid, shape, dtype)
    else:
        pr = W.uprobs['vector' if shape else 'scalar']
        d = W.site(kid, ('uniform', shape), M ** n, lambda d: 1. / M ** n if pr is None else jnp.prod(jnp.asarray(pr)[decompose(d, M, n)]))
        vals = jnp.asarray(pts, dtype=dtype)[decompose(d, M, n)].reshape(shape)
    if isinstance(minval, (int, float)) and isinstance(maxval, (int, float)) and minval == 0 and maxval == 1:
        return vals
    minval, maxval = jnp.asarray(minval, dtype), jnp.asarray(maxval, dtype)
    return jnp.maximum(minval, vals * (maxval - minval) + minval)


def _normal_like(kid, shape, dtype, tag='normal'):
    if W.mode == 'feed':
        return W.take('normal', kid, shape, dtype)
    n = int(np.prod(shape, dtype=int))
    M = len(W.nvals)

    def prob(d):
        pr = jnp.asarray(W.nprobs)[decompose(d, M, n)]
        return jnp.prod(pr)

    d = W.site(kid, (tag, shape), M ** n, prob)
    digs = decompose(d, M, n)
    return jnp.asarray(W.nvals, dtype=dtype)[digs].reshape(shape)


@_wrap('normal')
def _normal(key, shape=(), dtype=float):
    return _normal_like(decode(key), _shape(shape), _fdtype(dtype))


@_wrap('multivariate_normal')
def _mvn(key, mean, cov, shape=None, dtype=None, method='cholesky'):
    mean, cov = jnp.asarray(mean), jnp.asarray(cov)
    shape = _shape(shape) if shape is not None else mean.shape[:-1]
    z = _normal_like(decode(key), shape + mean.shape[-1:], mean.dtype)
    return mean + jnp.einsum('...ij,...j->...i', jnp.linalg.cholesky(cov), z)


@_wrap('exponential')
def _exponential(key, shape=(), dtype=float):
    kid = decode(key)
    shape = _shape(shape)
    n = int(np.prod(shape, dtype=int))
    pts = W.upts['vector' if shape else 'scalar']
    M = len(pts)
    pr = W.uprobs['vector' if shape else 'scalar']
    d = W.site(kid, ('exponential', shape), M ** n, lambda d: 1. / M ** n if pr is None else jnp.prod(jnp.asarray(pr)[decompose(d, M, n)]))
    return -jnp.log1p(-jnp.asarray(pts, dtype=_fdtype(dtype))[decompose(d, M, n)].reshape(shape))


@_wrap('rademacher')
def _rademacher(key, shape, dtype=int):
    kid = decode(key)
    shape = _shape(shape)
    n = int(np.prod(shape, dtype=int))
    d = W.site(kid, ('rademacher', shape), 2 ** n, lambda _: 0.5 ** n)
    return (2 * decompose(d, 2, n) - 1).reshape(shape).astype(_fdtype(dtype))


def _cat_site(kid, sig, probs, n):
    """n iid categorical draws with the (N,) probabilities `probs` (not necessarily normalised)."""
    N = probs.shape[0]

    def prob(d):
        return jnp.prod(probs[decompose(d, N, n)] / jnp.sum(probs))

    return decompose(W.site(kid, sig, N ** n, prob), N, n)


@_wrap('choice')
def _choice(key, a, shape=(), replace=True, p=None, axis=0):
    kid = decode(key)
    shape = _shape(shape)
    n = int(np.prod(shape, dtype=int))
    isint = np.ndim(a) == 0
    if isint:
        N = int(a)
    else:
        a = jnp.asarray(a)
        N = a.shape[axis]
    if N <= 0:
        raise ValueError('a must be greater than 0 unless no samples are taken')
    if not replace and n > N:
        raise ValueError('Cannot take a larger sample than population when replace=False')
    if p is not None:
        p = jnp.asarray(p)
        if p.shape != (N,):
            raise ValueError('p must be None or match the shape of a')
    if replace:
        probs = jnp.ones((N,)) / N if p is None else p
        inds = _cat_site(kid, ('choice', N, shape, 'p' if p is not None else 'u'), probs, n).reshape(shape)
    else:
        if p is None:
            cnt = math.perm(N, n)
            d = W.site(kid, ('choice-norep', N, n), cnt, lambda _: 1. / cnt)
            inds = _unrank(d, N, n).reshape(shape)
        else:
            cnt = math.perm(N, n)
            # sequential sampling proportional to p among the remaining (the law of JAX's Gumbel top-k)
            q = p / jnp.sum(p)

            def prob(d):
                o = _unrank(d, N, n)
                left, pr = 1., 1.
                for i in range(n):
                    pr = pr * q[o[i]] / jnp.maximum(left, 1e-300)
                    left = left - q[o[i]]
                return pr

            d = W.site(kid, ('choice-norep-p', N, n), cnt, prob)
            inds = _unrank(d, N, n).reshape(shape)
    if isint:
        return inds
    return jnp.take(a, inds.reshape(-1), axis=axis).reshape(
        a.shape[:axis] + shape + a.shape[axis + 1:]) if shape else jnp.take(a, inds.reshape(()), axis=axis)


def _unrank(d, N, n):
    """The d-th ordered n-subset of range(N), as an (n,) array."""
    if W.mode == 'uses':
        return jnp.arange(n)
    if math.perm(N, n) <= 50000:
        table = np.array(list(itertools.permutations(range(N), n)), dtype=np.int64).reshape(-1, n)
        return jnp.asarray(table)[d]
    if W.loose:  # a family of permutations: the rotations
        return jnp.asarray(np.roll(np.arange(N), int(d))[:n])
    raise BudgetExceeded('too many permutations')


@_wrap('permutation')
def _permutation(key, x, axis=0, independent=False):
    kid = decode(key)
    isint = np.ndim(x) == 0
    N = int(x) if isint else jnp.shape(x)[axis]
    if independent:
        raise Unsupported('permutation(independent=True)')
    cnt = math.factorial(N)
    d = W.site(kid, ('permutation', N), cnt, lambda _: 1. / cnt)
    o = _unrank(d, N, N)
    return o if isint else jnp.take(jnp.asarray(x), o, axis=axis)


@_wrap('randint')
def _randint(key, shape, minval, maxval, dtype=int):
    kid = decode(key)
    shape = _shape(shape)
    n = int(np.prod(shape, dtype=int))
    if isinstance(minval, jax.core.Tracer) or isinstance(maxval, jax.core.Tracer):
        raise Unsupported('randint with traced bounds')
    if np.ndim(minval) == 0 and np.ndim(maxval) == 0:
        lo, hi = int(minval), int(maxval)
        hi = max(hi, lo + 1)  # jax: maxval <= minval gives minval
        R = hi - lo
        d = W.site(kid, ('randint', shape, lo, hi), R ** n, lambda _: 1. / float(R) ** n)
        return (lo + decompose(d, R, n)).reshape(shape).astype(_fdtype(dtype))
    lo = np.broadcast_to(np.asarray(minval), shape).astype(np.int64).ravel()
    R = np.maximum(np.broadcast_to(np.asarray(maxval), shape).astype(np.int64).ravel() - lo, 1)
    total = math.prod(int(r) for r in R)
    d = W.site(kid, ('randint', shape, tuple(lo.tolist()), tuple(R.tolist())), total, lambda _: 1. / total)
    if W.mode == 'uses':
        return jnp.asarray(lo).reshape(shape).astype(_fdtype(dtype))
    pw = np.concatenate([[1], np.cumprod(R)[:-1]])
    return (jnp.asarray(lo) + (d // jnp.asarray(pw)) % jnp.asarray(R)).reshape(shape).astype(_fdtype(dtype))


@_wrap('bernoulli')
def _bernoulli(key, p=0.5, shape=None):
    kid = decode(key)
    p = jnp.asarray(p, dtype=_fdtype(float))
    shape = p.shape if shape is None else _shape(shape)
    n = int(np.prod(shape, dtype=int))
    pb = jnp.broadcast_to(p, shape).reshape(-1)

    def prob(d):
        b = decompose(d, 2, n)
        return jnp.prod(jnp.where(b == 1, pb, 1 - pb))

    d = W.site(kid, ('bernoulli', shape), 2 ** n, prob)
    return (decompose(d, 2, n) == 1).reshape(shape)


@_wrap('categorical')
def _categorical(key, logits, axis=-1, shape=None):
    kid = decode(key)
    logits = jnp.asarray(logits)
    N = logits.shape[axis]
    lg = jnp.moveaxis(logits, axis, -1)
    batch = lg.shape[:-1]
    shape = batch if shape is None else _shape(shape)
    probs = jax.nn.softmax(lg, axis=-1)
    n = int(np.prod(shape, dtype=int))
    pb = jnp.broadcast_to(probs, shape + (N,)).reshape(n, N)

    def prob(d):
        o = decompose(d, N, n)
        return jnp.prod(pb[jnp.arange(n), o])

    d = W.site(kid, ('categorical', N, shape), N ** n, prob)
    return decompose(d, N, n).reshape(shape)


def _unsupported(name):
    orig = ORIG['random.' + name]

    @functools.wraps(orig)
    def wrapper(*a, **k):
        if active():
            raise Unsupported('jax.random.' + name)
        return orig(*a, **k)

    setattr(jax.random, name, wrapper)


for _n in list(ORIG):
    if _n.startswith('random.') and getattr(jax.random, _n[7:]) is ORIG[_n]:
        _unsupported(_n[7:])


# ---------------------------------------------------------------------------------------------------------------------
# control transforms
# ---------------------------------------------------------------------------------------------------------------------
def _attempt(real):
    """Run `real()` as a real transform; NeedUnroll if its body draws. Key-usage log and weights are restored."""
    snap = ({k: list(v) for k, v in W.uses.items()}, W.weight, len(W.sites), W.scan_ord)
    W.real_depth += 1
    try:
        return real()
    except NeedUnroll:
        W.uses, W.weight, _, W.scan_ord = snap
        raise
    finally:
        W.real_depth -= 1


def _tree_stack(trees, axis=0):
    return jax.tree_util.tree_map(lambda *ls: jnp.stack([jnp.asarray(l) for l in ls], axis=axis), *trees)


def _jit(fun=None, **kw):
    if fun is None:
        return lambda f: _jit(f, **kw)
    orig = ORIG['jit'](fun, **kw)

    @functools.wraps(fun)
    def wrapper(*a, **k):
        if active():
            return fun(*a, **k)
        return orig(*a, **k)

    for attr in ('lower', 'clear_cache', 'eval_shape', 'trace'):
        if hasattr(orig, attr):
            setattr(wrapper, attr, getattr(orig, attr))
    return wrapper


def _vmap(fun, in_axes=0, out_axes=0, *args_, **kw):
    orig = ORIG['vmap'](fun, in_axes, out_axes, *args_, **kw)

    @functools.wraps(fun)
    def wrapper(*args, **kwargs):
        if not active():
            return orig(*args, **kwargs)
        try:
            return _attempt(lambda: orig(*args, **kwargs))
        except NeedUnroll:
            if W.real_depth > 0:
                raise
        from jax._src.api_util import flatten_axes
        ia = tuple(in_axes) if isinstance(in_axes, (list, tuple)) else in_axes
        flat, tree = jax.tree_util.tree_flatten((args, kwargs), is_leaf=None)
        if isinstance(ia, int):
            axes = [ia] * len(jax.tree_util.tree_leaves(args))
        else:
            axes = flatten_axes('in_axes', jax.tree_util.tree_structure(args), ia)
        axes = list(axes) + [0] * len(jax.tree_util.tree_leaves(kwargs))
        size = None
        for leaf, ax in zip(flat, axes):
            if ax is not None:
                size = np.shape(leaf)[ax]
                break
        outs = []
        W.nest += 1
        try:
            for i in range(size):
                leaves = [leaf if ax is None else jnp.take(leaf, i, axis=ax) for leaf, ax in zip(flat, axes)]
                a, k = jax.tree_util.tree_unflatten(tree, leaves)
                outs.append(fun(*a, **k))
        finally:
            W.nest -= 1
        oleaves = [jax.tree_util.tree_flatten(o) for o in outs]
        otree = oleaves[0][1]
        if isinstance(out_axes, int):
            oaxes = [out_axes] * otree.num_leaves
        else:
            oaxes = flatten_axes('out_axes', otree, tuple(out_axes) if isinstance(out_axes, list) else out_axes)
        res = []
        for j, ax in enumerate(oaxes):
            col = [jnp.asarray(o[0][j]) for o in oleaves]
            res.append(col[0] if ax is None else jnp.stack(col, axis=ax))
        return jax.tree_util.tree_unflatten(otree, res)

    return wrapper


def _index_tree(xs, i):
    return jax.tree_util.tree_map(lambda a: jnp.asarray(a)[i], xs)


def _scan(f, init, xs=None, length=None, reverse=False, unroll=1, **kw):
    orig = ORIG['lax.scan']
    if not active():
        return orig(f, init, xs, length=length, reverse=reverse, unroll=unroll, **kw)
    try:
        return _attempt(lambda: orig(f, init, xs, length=length, reverse=reverse, unroll=unroll, **kw))
    except NeedUnroll:
        if W.real_depth > 0:
            raise
    n = length if length is not None else int(jax.tree_util.tree_leaves(xs)[0].shape[0])
    order = list(range(n))[::-1] if reverse else list(range(n))
    st = W.staging if (W.nest == 0 and not W.in_step) else None
    if n == 0:
        return orig(f, init, xs, length=length, reverse=reverse, unroll=unroll, **kw)
    carry, ys = init, [None] * n
    my = W.scan_ord
    if W.nest == 0 and not W.in_step:
        W.scan_ord += 1
    for pos, i in enumerate(order):
        if st is not None and st.done(my, pos):
            carry, ys[i] = st.fetch(my, pos)
            continue
        W.in_step, was = True, W.in_step
        try:
            carry, ys[i] = f(carry, None if xs is None else _index_tree(xs, i))
        finally:
            W.in_step = was
        carry = jax.tree_util.tree_map(jnp.asarray, carry)
        ys[i] = jax.tree_util.tree_map(jnp.asarray, ys[i])
        if st is not None:
            st.reached(my, pos, carry, ys[i])  # may raise Boundary
    return carry, _tree_stack(ys)


def _exclusive(branches, operands):
    """Run mutually exclusive branches one after the other; a key may be used once in each of them."""
    before = {k: list(v) for k, v in W.uses.items()}
    merged = dict(before)
    outs = []
    W.nest += 1
    try:
        for b in branches:
            W.uses = {k: list(v) for k, v in before.items()}
            outs.append(b(*operands))
            for k, v in W.uses.items():
                if len(v) > len(merged.get(k, [])):
                    merged[k] = v
    finally:
        W.nest -= 1
    W.uses = merged
    return outs


def _concrete(x):
    return not isinstance(x, jax.core.Tracer)


def _cond(pred, true_fun, false_fun, *operands, **kw):
    orig = ORIG['lax.cond']
    if not active():
        return orig(pred, true_fun, false_fun, *operands, **kw)
    try:
        return _attempt(lambda: orig(pred, true_fun, false_fun, *operands, **kw))
    except NeedUnroll:
        if W.real_depth > 0:
            raise
    if 'operand' in kw:
        operands = (kw['operand'],)
    if _concrete(pred):
        return true_fun(*operands) if bool(pred) else false_fun(*operands)
    a, b = _exclusive([true_fun, false_fun], operands)
    return jax.tree_util.tree_map(lambda x, y: jnp.where(pred, x, y), a, b)


def _switch(index, branches, *operands, **kw):
    orig = ORIG['lax.switch']
    if not active():
        return orig(index, branches, *operands, **kw)
    try:
        return _attempt(lambda: orig(index, branches, *operands, **kw))
    except NeedUnroll:
        if W.real_depth > 0:
            raise
    if _concrete(index):
        return branches[int(np.clip(int(index), 0, len(branches) - 1))](*operands)
    outs = _exclusive(branches, operands)
    idx = jnp.clip(index, 0, len(branches) - 1)
    return jax.tree_util.tree_map(lambda *ls: jnp.stack([jnp.asarray(l) for l in ls])[idx], *outs)


def _fori_loop(lower, upper, body_fun, init_val, **kw):
    orig = ORIG['lax.fori_loop']
    if not active():
        return orig(lower, upper, body_fun, init_val, **kw)
    try:
        return _attempt(lambda: orig(lower, upper, body_fun, init_val, **kw))
    except NeedUnroll:
        if W.real_depth > 0:
            raise
    if not (_concrete(lower) and _concrete(upper)):
        raise Unsupported('fori_loop with traced bounds and random draws')
    lo, hi = int(lower), int(upper)
    return _scan(lambda c, i: (body_fun(i, c), None), init_val, jnp.arange(lo, hi))[0] if hi > lo else init_val


def _lax_map(f, xs, *a, **kw):
    orig = ORIG['lax.map']
    if not active():
        return orig(f, xs, *a, **kw)
    try:
        return _attempt(lambda: orig(f, xs, *a, **kw))
    except NeedUnroll:
        if W.real_depth > 0:
            raise
    n = jax.tree_util.tree_leaves(xs)[0].shape[0]
    W.nest += 1
    try:
        return _tree_stack([f(_index_tree(xs, i)) for i in range(n)])
    finally:
        W.nest -= 1


def _while_loop(cond_fun, body_fun, init_val):
    orig = ORIG['lax.while_loop']
    if not active():
        return orig(cond_fun, body_fun, init_val)
    try:
        return _attempt(lambda: orig(cond_fun, body_fun, init_val))
    except NeedUnroll:
        if W.real_depth > 0:
            raise
    val = init_val
    W.nest += 1
    try:
        for _ in range(100000):
            c = cond_fun(val)
            if not _concrete(c):
                raise Unsupported('while_loop with traced condition and random draws')
            if not bool(c):
                return val
            val = body_fun(val)
    finally:
        W.nest -= 1
    raise Unsupported('while_loop does not end')


jax.jit = _jit
jax.vmap = _vmap
jax.lax.scan = _scan
jax.lax.cond = _cond
jax.lax.switch = _switch
jax.lax.fori_loop = _fori_loop
jax.lax.map = _lax_map
jax.lax.while_loop = _while_loop

REPO = os.environ.get('VP_REPO', '/repo')
import sys  # noqa: E402

if REPO not in sys.path:
    sys.path.insert(0, REPO)

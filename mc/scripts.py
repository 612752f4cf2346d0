"""Run the experiment scripts of the repository with the library's samplers replaced by recorders.

A script is executed as `python script.py args` would, in this process, under the choice layer (mc/rng.py): every random
draw is fed, every key is a name.  The samplers it calls are recorders: they note the arguments they are given (the
model functions, the chain state, the keys) and return fresh tokens, so that the whole history of sampler calls and of
saved arrays can be compared with what the script promises.  Nothing is written to disk."""
import contextlib
import inspect
import io
import os
import runpy
import sys
import types
import warnings
import numpy as np
import jax
import jax.numpy as jnp
from jax import tree_util as tree
import matplotlib
from mc import rng
from mc.explore import grid, SIGNS
import fbs.samplers
import fbs.samplers.smc
import fbs.samplers.gibbs
import fbs.sdes
import fbs.sdes.simulators
import fbs.sdes.linear
import fbs.nn.models
import fbs.nn.utils
import fbs.dsb.base
import fbs.data

matplotlib.use('Agg')
import matplotlib.pyplot as plt  # noqa: E402


class Stop(Exception):
    pass


class Buffer:
    """What numpy.zeros gives to a script under tracing: remembers the rows it is assigned."""

    def __init__(self, shape, dtype=float):
        self.v = jnp.zeros(shape, float)
        self.shape = self.v.shape

    def __getattr__(self, k):
        if k.startswith('__') or k == 'v':
            raise AttributeError(k)
        return getattr(self.v, k)

    def __setitem__(self, i, x):
        self.v = self.v.at[i].set(x)

    def __getitem__(self, i):
        return self.v[i]

    def __jax_array__(self):
        return self.v


class Wave:
    """Endless fixed noise: distinct values of either sign, or in (0, 1)."""

    def __init__(self, unit=False):
        self.unit = unit

    def __getitem__(self, s):
        i = np.arange(s.start, s.stop)
        return jnp.asarray((i * 0.6180339887 + 0.3) % 1. if self.unit else 1.3 * np.sin(1.7 * i + 0.4 * i * i % 7 + 0.9))


class Args(dict):
    """The arguments of a recorded call.  A name that is gone is a renamed parameter, which decides nothing."""

    def __missing__(self, k):
        raise rng.Unsupported(f'the recorded call has no argument {k}')


class Call:
    def __init__(self, name, args, out, kid):
        self.name, self.args, self.out, self.kid = name, args, out, kid

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return self.__dict__['args'][k]


class Run:
    def __init__(self):
        self.calls, self.saved, self.loaded, self.images, self.texts = [], {}, [], {}, ''
        self.figs = []
        self.radices, self.weight, self.order, self.uses = [], 1., [], {}

    def of(self, name):
        return [c for c in self.calls if c.name == name]


def key_path(kid, w):
    """The derivation of a key as text, which does not depend on the order of execution."""
    out = []
    while isinstance(kid, int) and kid in w.parent:
        n = w.parent[kid]
        out.append(str(n[1:]))
        if not isinstance(n[0], int):
            out.append(str(n))
            break
        kid = n[0]
    return '/'.join(out)


def bind(orig, a, k):
    b = inspect.signature(orig).bind(*a, **k)
    b.apply_defaults()
    d = dict(b.arguments)
    for p in inspect.signature(orig).parameters.values():
        if p.kind is p.VAR_KEYWORD:
            d.update(d.pop(p.name, {}))
            d['_extra'] = set(b.arguments.get(p.name, {})) if p.name in b.arguments else set()
    return d


@contextlib.contextmanager
def replaced(pairs):
    """Replace every attribute of the repository's modules that is one of the given objects."""
    done = []
    mods = [m for n, m in list(sys.modules.items()) if (n == 'fbs' or n.startswith('fbs.')) and isinstance(m, types.ModuleType)]
    try:
        for m in mods:
            for n, v in list(vars(m).items()):
                for old, new in pairs:
                    if v is old:
                        done.append((m, n, v))
                        setattr(m, n, new)
        yield
    finally:
        for m, n, v in reversed(done):
            setattr(m, n, v)


@contextlib.contextmanager
def attrs(items):
    done = []
    try:
        for o, n, v in items:
            done.append((o, n, getattr(o, n)))
            setattr(o, n, v)
        yield
    finally:
        for o, n, v in reversed(done):
            setattr(o, n, v)


def execute(path, argv, stubs=(), files=None, z=None, u=None, digits=None, stop=None, world=None, observe=(), real=False,
            loose=False, buffers=False, patch=()):
    """Run a script once.

    stubs: [(original function, stub(call arguments as a dict, index) -> output)]; observe: originals to record but call;
    files: name -> loader for numpy.load; z, u, digits: noise; stop: (function name, nth) ends the run at that call."""
    res = Run()
    w = world or rng.World(grid(2), SIGNS)
    w.loose = loose

    def recorder(orig, stub):
        name = orig.__name__

        def rec(*a, **k):
            if not rng.active():
                return orig(*a, **k)
            if rng.W.real_depth > 0:
                raise rng.NeedUnroll()
            args = Args(bind(orig, a, k))
            n = len(res.of(name))
            key = args.get('key')
            kid = None if key is None else rng.decode(key)
            c = Call(name, args, None, kid)
            if stop is not None and stop[0] == name and n == stop[1]:
                res.calls.append(c)
                raise Stop()
            if stub is None:
                c.out = orig(*a, **k)
            else:
                if kid is not None:
                    rng.W.use(kid, ('draw', (name,)))
                c.out = stub(args, n)
            res.calls.append(c)
            return c.out

        rec.__signature__ = inspect.signature(orig)
        rec.__name__ = name
        return rec

    def source(w_, mk, radix):
        i = len(res.radices)
        res.radices.append(radix)
        if callable(digits):
            return digits(key_path(mk[0][0], w_), mk[0][1], radix), True
        return (0 if digits is None or i >= len(digits) else digits[i]), True

    def keep(v):
        v = v.v if isinstance(v, Buffer) else v
        return v if isinstance(v, jax.core.Tracer) else np.array(v)

    def full(name, ext=''):
        name = os.path.normpath(str(name))
        name = name if name.startswith(('.', '/')) else './' + name
        return name if name.endswith(ext) else name + ext  # as numpy does

    def save(name, arr=None, *a, **k):
        res.order.append(full(name, '.npy'))
        res.saved[full(name, '.npy')] = keep(arr)

    def savez(name, *a, **k):
        res.order.append(full(name, '.npz'))
        res.saved[full(name, '.npz')] = {**{f'arr_{i}': keep(v) for i, v in enumerate(a)}, **{n: keep(v) for n, v in k.items()}}

    real_load = np.load

    def load(name, *a, **k):
        name = full(name)
        res.loaded.append(name)
        if hasattr(files, 'lookup'):
            return files.lookup(name)
        if files is not None:
            for n, f in files.items():
                if name.endswith(n):
                    return f() if callable(f) else f
        raise FileNotFoundError(name)

    def imsave(name, img, *a, **k):
        name = full(name)
        res.order.append(name)
        if not (len(img.shape) == 2 or len(img.shape) == 3 and img.shape[2] in (3, 4)):
            raise ValueError(f'an image of shape {img.shape} cannot be saved')  # as matplotlib does
        res.images[name] = keep(img)

    real_zeros = np.zeros

    def zeros(shape, *a, **k):
        if sys._getframe(1).f_globals.get('__name__') == '__main__' and not real:
            return Buffer(shape)
        return real_zeros(shape, *a, **k)

    def opened(f):
        def g(*a, **k):
            a, k = tree.tree_map(lambda x: x.v if isinstance(x, Buffer) else x, (a, k), is_leaf=lambda x: isinstance(x, Buffer))
            return f(*a, **k)
        return g

    reduce = [(jnp, n, opened(getattr(jnp, n))) for n in ('mean', 'cov', 'var', 'std', 'sum', 'average', 'array', 'asarray')]
    real_update = jax.config.update
    x64 = jax.config.jax_enable_x64

    def update(name, val):
        if name != 'jax_enable_x64' or real:
            real_update(name, val)

    pairs = [(o, recorder(o, s)) for o, s in stubs] + [(o, recorder(o, None)) for o in observe]
    old_argv, out = sys.argv, io.StringIO()
    quiet = lambda *a, **k: None
    rng.W = w
    w.begin('feed', source)
    w.feed = dict(normal=Wave() if z is None else z, uniform=Wave(True) if u is None else u)
    if real:  # as shipped, with real keys: only files are redirected
        w.begin('off')
        rng.W = None
        pairs = []
    try:
        sys.argv = [os.path.basename(path)] + [str(a) for a in argv]
        with replaced(pairs), attrs([(np, 'save', save), (np, 'savez', savez), (np, 'savez_compressed', savez), (np, 'load', load),
                                     (jnp, 'save', save), (jnp, 'savez', savez), (jnp, 'load', load), (plt, 'imsave', imsave),
                                     (plt, 'savefig', lambda name, *a, **k: res.figs.append(full(name))), (plt, 'show', quiet), (jax.config, 'update', update), *patch]
                                    + ([(np, 'zeros', zeros), *reduce] if buffers else [])), \
                contextlib.redirect_stdout(out), warnings.catch_warnings(), \
                (contextlib.nullcontext() if real else jax.ensure_compile_time_eval()):
            warnings.simplefilter('ignore')
            try:
                runpy.run_path(os.path.join(rng.REPO, path), run_name='__main__')
            except Stop:
                pass
            except (jax.errors.TracerArrayConversionError, jax.errors.ConcretizationTypeError) as e:
                raise rng.Unsupported(f'the script needs concrete values: {str(e)[:200]}')
            except TypeError as e:
                if 'Buffer' in str(e):
                    raise rng.Unsupported(f'the script does something unforeseen with its output array: {str(e)[:200]}')
                if 'float32' in str(e) and 'float64' in str(e):
                    raise rng.Unsupported(f'the script mixes precisions: {str(e)[:200]}')
                raise
        res.weight = float(w.weight) if not isinstance(w.weight, jax.core.Tracer) else w.weight
        res.uses = {k: list(v) for k, v in w.uses.items()}
        res.taken = dict(w.taken)
        res.parent = dict(w.parent)
        res.fed = list(w.fed)
        res.world = w
        res.texts = out.getvalue()
        return res
    finally:
        real_update('jax_enable_x64', x64)
        sys.argv = old_argv
        w.begin('off')
        rng.W = None
        plt.close('all')


class Traced:
    """What a script computes (`pick` of its run) as a function of the first normals it draws.

    pick(run) -> tree of arrays."""

    def __init__(self, path, argv, pick, **kw):
        r = execute(path, argv, **kw)
        self.out0 = tree.tree_map(np.asarray, pick(r))
        self.nz = r.taken['normal']
        self.specs = r.fed
        self.world = r.world

        def f(z):
            q = execute(path, argv, z=z, **kw)
            if [x[2] for x in q.fed] != [x[2] for x in self.specs]:
                raise rng.Unsupported('the draws of the script depend on traced values')
            return tree.tree_map(jnp.asarray, pick(q))

        self.vf = rng.ORIG['jit'](rng.ORIG['vmap'](f))

    def batch(self, Z):
        return tree.tree_map(np.asarray, self.vf(jnp.asarray(Z)))

    def affine(self, ck, what, tol=1e-8):
        """Offset and matrix (trees) of the output, which has to be affine in the normals on a set of points."""
        n = self.nz
        E = np.eye(n)
        w = np.asarray(Wave()[0:n])
        pts = np.stack([w, -w, 2 * w, np.ones(n), -np.ones(n), np.roll(w, 1)] + [np.where(np.arange(n) % k == 0, 1.5, -0.5) for k in range(2, 8)])
        B = np.concatenate([np.zeros((1, n)), E, -E, pts])
        vals = self.batch(B)
        ck.count(states=len(B), transitions=len(B) * max(1, len(self.specs)))
        c = tree.tree_map(lambda v: v[0], vals)
        J = tree.tree_map(lambda v: np.moveaxis(v[1:n + 1] - v[0], 0, -1), vals)
        for v, j in zip(tree.tree_leaves(vals), tree.tree_leaves(J)):
            ck.close(v, v[0] + np.moveaxis(np.tensordot(j, B, axes=(-1, 1)), -1, 0), 'affine', f'{what} is not affine in the Gaussian noise', tol=tol)
        return c, J

    def real(self):
        """The normals that the script's own seeds give its draws."""
        vals = [np.zeros(0)]
        for kind, kid, shape, dtype in self.specs:
            if kind == 'normal':
                vals.append(np.asarray(rng.ORIG['random.normal'](self.world.real_key(kid, None), shape, dtype), float).ravel())
        return np.concatenate(vals)

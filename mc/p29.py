"""Every function with a key is pure: what it returns depends on its key and arguments only, in every history of calls, compiled or not,
alone or batched, in double and in single precision."""
import itertools
import os
import random as pyrandom
import subprocess
import sys
import numpy as np
import jax
import jax.numpy as jnp
from jax.experimental import disable_x64
from mc import p08, rng
from fbs.data.bayesian import Crescent
from fbs.sdes import linear as L
from fbs.sdes import simulators as S
from mc.report import Violation

KEYS = [11, 12, 13, 14, 15, 16]
GROUPS = (('resampling', 'cond-resampling', 'force-move'), ('csmc', 'smoother'), ('filter',), ('pmcmc', 'pcn', 'twisted'), ('gibbs',),
          ('forward', 'bridge-sampler'), ('em', 'reverse', 'discrete', 'bridge-'), ('loss',), ('draw', 'enumeration', 'crescent', 'image', 'restore'))


def operations():
    ops = {}
    p08.cases(lambda name, fn, *args, **kw: ops.setdefault(name, (fn, args)))
    # second instances of the same classes: nothing may be remembered per class
    ts, g = jnp.array([.3, .5, .9]), jnp.ones((1,))
    sdes = dict(linlin=L.StationaryLinLinearSDE(0.1, 0.8, 0.25, 1.9), const=L.StationaryConstLinearSDE(-1.3, 0.6), exp=L.StationaryExpLinearSDE(-0.8, 0.7, 0.1, 0.4))
    for n, s in sdes.items():
        ops[f'forward-{n}-second'] = (lambda key, s=s: L.make_linear_sde(s)[2](key, g, ts), ())
        if n != 'exp':   # has no bridge
            ops[f'bridge-{n}-second'] = (lambda key, s=s: S.doob_bridge_simulator(key, s, g, -g, ts), ())
    ops['forward-ou-second'] = (lambda key: L.make_ou_sde(-1.3, 0.6)[2](key, g, ts), ())
    ops['loss-second'] = (lambda key: L.make_linear_sde_law_loss(sdes['const'], lambda x, t, p: x * p[0], 0.1, 1.3, 3)(jnp.ones(1), key, jnp.ones((2, 2))), ())
    other = Crescent(psi=.5, xi=2.)
    ops['crescent-second'] = (lambda key: other.sampler(key, 3), ())
    d2 = p08.Data(7)
    ops['draw-subset-second'] = (lambda key: d2.draw_subset(key, 2), ())
    ops['enumeration-second'] = (lambda key: d2.init_enumeration(key, 3), ())
    for task, shape in (('inpaint-2', (6, 10, 2)), ('supr-4', (16, 8, 1))):
        im = p08.Img(task, shape=shape)
        ops[f'image-{task}-second'] = (lambda key, im=im: im.sampler(key), ())
        ops[f'image-batch-{task}-second'] = (lambda key, im=im: im.enumerate_subset(0, [jnp.array([2, 0])], key), ())
    for task in ('inpaint-2', 'supr-2'):
        rs = p08.Restore(task, shape=(6, 8, 2))
        ops[f'restore-{task}-second'] = (lambda key, rs=rs: rs.sampler(key), ())
    return ops


def grouped():
    left, out = operations(), []
    for heads in GROUPS:
        g = {n: o for n, o in left.items() if n.startswith(heads)}
        for n in g:
            left.pop(n)
        out.append(g)
    out.append(left)
    return [g for g in out if g]


def outside():
    """The state of the process that no library function may change."""
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2:]), pyrandom.getstate(), os.getcwd(), jax.config.jax_enable_x64, jax.config.jax_default_prng_impl, \
        jax.config.jax_disable_jit, jax.config.jax_debug_nans, str(jax.config.jax_default_matmul_precision), np.geterr()['divide']


def read(out):
    leaves, tree = jax.tree_util.tree_flatten(out)
    return [np.asarray(x) for x in leaves], str(tree)


def equal(a, b):
    return a[1] == b[1] and all(x.dtype == y.dtype and x.shape == y.shape and x.tobytes() == y.tobytes() for x, y in zip(a[0], b[0]))


def near(ck, a, b, sig, what, tol):
    ck.require(len(a[0]) == len(b[0]), sig, f'{what}: {len(a[0])} and {len(b[0])} results')
    for x, y in zip(a[0], b[0]):
        ck.require(x.shape == y.shape, sig, f'{what}: results of shape {x.shape} and {y.shape}')
        ck.require(x.dtype == y.dtype, sig, f'{what}: results of type {x.dtype} and {y.dtype}')
        scale = max(1., float(np.abs(y[np.isfinite(y)]).max(initial=0.))) if y.dtype.kind == 'f' else 1.
        ck.close(np.asarray(x, float) / scale, np.asarray(y, float) / scale, sig, what, tol=tol)


def down(x):
    return jnp.asarray(np.asarray(x), jnp.float32) if np.asarray(x).dtype == np.float64 else x


def pure(ck, name, fn, args):
    """Repeated, compiled, batched, with other keys."""
    key = jax.random.PRNGKey
    before = outside()
    first = [read(fn(key(k), *args)) for k in KEYS[:3]]
    ck.require(equal(read(fn(key(KEYS[0]), *args)), first[0]), 'repeat', f'{name}: the second call with one key differs from the first')
    ck.require(all(np.isfinite(x).all() for f in first for x in f[0] if x.dtype.kind == 'f'), 'finite', f'{name}: a result is not finite')
    for k, f in list(zip(KEYS, first))[1:]:
        f2, a2 = operations()[name]  # objects that have never been called
        ck.require(equal(read(f2(key(k), *a2)), f), 'fresh', f'{name}: what a new object returns differs from what one that was called before returns')
    fast = jax.jit(fn)
    for k, f in zip(KEYS, first):
        near(ck, read(fast(key(k), *args)), f, 'compiled', f'{name}: compiled and interpreted', 1e-9)
    more = first + [read(fast(key(k), *args)) for k in KEYS[3:]]
    ck.require(any(not equal(more[0], m) for m in more[1:]), 'ignores-key', f'{name}: six keys give one result')
    ks = jnp.stack([key(KEYS[i]) for i in (2, 0, 1, 0)])
    many = read(jax.vmap(lambda k: fn(k, *args))(ks))
    for row, i in enumerate((2, 0, 1, 0)):
        near(ck, ([x[row] for x in many[0]], ''), first[i], 'batched', f'{name}: batched over keys and alone', 1e-9)
    ck.require(outside() == before, 'outside', f'{name}: the state of the process is changed')
    ck.count(states=6, transitions=16, traces=16)


def single(ck, name, fn, args):
    """In the default 32-bit mode of JAX: same structure, finite, compiled as interpreted."""
    wide = read(fn(jax.random.PRNGKey(KEYS[0]), *args))
    with disable_x64():
        small = operations()[name]
        a32 = jax.tree_util.tree_map(down, small[1])
        f = small[0]
        out = read(f(jax.random.PRNGKey(KEYS[0]), *a32))
        ck.require(len(out[0]) == len(wide[0]) and all(x.shape == y.shape and x.dtype.kind == y.dtype.kind for x, y in zip(out[0], wide[0])), 'single',
                   f'{name}: results differ in structure between single and double precision')
        ck.require(all(np.isfinite(x).all() for x in out[0] if x.dtype.kind == 'f'), 'single', f'{name}: not finite in single precision')
        ck.require(equal(read(f(jax.random.PRNGKey(KEYS[0]), *a32)), out), 'single', f'{name}: the second call with one key differs from the first in single precision')
    ck.count(states=1, transitions=3, traces=3)


def walk(n):
    """A cyclic sequence over range(n) in which every ordered pair (also of one with itself) is consecutive exactly once."""
    todo = {a: list(range(n)) for a in range(n)}
    stack, out = [0], []
    while stack:
        a = stack[-1]
        if todo[a]:
            stack.append(todo[a].pop())
        else:
            out.append(stack.pop())
    return out[::-1]


IMPORT = '''
import os, pkgutil, random, numpy as np, jax
known = list(jax.config.values)
cfg = lambda: {k: jax.config.values.get(k) for k in known}
np.random.seed(3); random.seed(3)
before = cfg(), np.random.get_state()[1].tobytes(), random.getstate(), os.getcwd()
import importlib, fbs
for m in pkgutil.walk_packages(fbs.__path__, 'fbs.'):
    importlib.import_module(m.name)
    after = cfg(), np.random.get_state()[1].tobytes(), random.getstate(), os.getcwd()
    for i, what in enumerate(('configuration of JAX', 'state of numpy.random', 'state of random', 'working folder')):
        if after[i] != before[i]:
            print('CHANGED', m.name, what, [k for k in before[0] if before[0][k] != after[0].get(k)])
    before = after
    print('module', m.name)
'''


def imports(ck):
    """Importing the library leaves the process as it was (precision, generators, working folder)."""
    env = dict(os.environ, PYTHONPATH=rng.REPO, JAX_PLATFORMS='cpu', PYTHONDONTWRITEBYTECODE='1')
    env.pop('JAX_ENABLE_X64', None)
    p = subprocess.run([sys.executable, '-c', IMPORT], capture_output=True, text=True, env=env, cwd='/')
    lines = p.stdout.splitlines()
    if p.returncode:
        raise rng.Unsupported('a module cannot be imported: ' + p.stderr[-300:])
    bad = [l for l in lines if l.startswith('CHANGED')]
    ck.require(not bad, 'import', f'importing a module changes the process: {bad[:2]}')
    n = sum(l.startswith('module') for l in lines)
    ck.require(n > 15, 'import', f'only {n} modules are found')
    ck.count(states=n, transitions=n, traces=n)


def histories(ck, ops, styles=(False, True)):
    """Every ordered pair of calls, interpreted or compiled, as consecutive steps of one history: each returns what it returned first."""
    acts = [(n, c) for n in ops for c in styles]
    fast = {n: jax.jit(ops[n][0]) for n in ops}
    want, before = {}, outside()
    seq = walk(len(acts))
    for step, a in enumerate(seq):
        name, compiled = acts[a]
        k = KEYS[step % 2]
        try:
            got = read((fast[name] if compiled else ops[name][0])(jax.random.PRNGKey(k), *ops[name][1]))
        except Exception as e:
            if step == 0 or (name, compiled, k) not in want:
                raise
            raise Violation('history', f'{name} raises {type(e).__name__} after {[acts[b] for b in seq[max(0, step - 3):step]]}: {str(e)[:200]}')
        first = want.setdefault((name, compiled, k), got)
        if not equal(got, first):
            raise Violation('history', f'{name} returns something else after {[acts[b] for b in seq[max(0, step - 3):step]]}', history=[acts[b] for b in seq[:step + 1]][-20:])
        other = want.get((name, not compiled, k))
        if other is not None:
            near(ck, got, other, 'compiled', f'{name}: compiled and interpreted', 1e-9)
    ck.require(outside() == before, 'outside', 'the state of the process is changed')
    ck.require(len({(a, b) for a, b in zip(seq, seq[1:])}) == len(acts) ** 2, 'walk', 'not every pair is visited')
    ck.count(states=len(want), transitions=len(seq), traces=len(seq))


def run(ck):
    for g in grouped():
        names = sorted(g)
        size = 7 if ck.thorough else 4
        for i in range(0, len(names), size):
            part = {n: g[n] for n in names[i:i + size]}
            ck.case('histories-' + names[i], histories, ck, part)
    every = operations()
    for name, (fn, args) in every.items():
        ck.case('pure-' + name, pure, ck, name, fn, args)
        ck.case('single-' + name, single, ck, name, fn, args)
    # one representative of every group, across groups
    heads = {}
    for g in grouped():
        n = sorted(g)[len(g) // 2]
        heads[n] = g[n]
    ck.case('histories-across', histories, ck, heads, (False, True) if ck.thorough else (False,))
    ck.case('import', imports, ck)
    ck.bound('every ordered pair of consecutive calls within groups of four (thorough: seven) entry points, and across the groups, each interpreted and compiled, with two keys; '
             'every entry point repeated, compiled, batched over keys and in single precision')

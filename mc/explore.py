"""Exhaustive exploration of the real code over every outcome of every random draw.

``explore(fn, inits, ...)`` executes ``fn(key, *init)`` - a function calling into /repo - for every initial state and
every resolution of its random choices, and returns the exact law of its output for each initial state.

States are merged: when the code runs a loop (``lax.scan``) whose body draws, the loop is explored breadth first; after
each iteration the executions with equal (initial state, earlier draws, carry, outputs so far) are merged and their
probabilities added, which is sound because everything that happens later is a function of exactly these and of later
draws (a key used both in a merged iteration and later would break this; that is detected and merging is switched off).
"""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from mc import rng
from mc.rng import World, Boundary, MergeUnsound, BudgetExceeded, Unsupported, NeedUnroll, ORIG

tree = jax.tree_util


def grid(M):
    """The uniform law on M midpoints of [0, 1)."""
    return (np.arange(M) + 0.5) / M


def points(uniform):
    """An int M: the M-point grid. An array: these points. A pair: points and their probabilities. A dict(scalar=, vector=): either, per kind of draw."""
    if isinstance(uniform, dict):
        return {k: points(v) for k, v in uniform.items()}
    if isinstance(uniform, tuple):
        return uniform
    return grid(int(uniform)) if np.isscalar(uniform) else np.asarray(uniform)


SIGNS = (np.array([-1., 1.]), np.array([0.5, 0.5]))
GH3 = (np.array([-np.sqrt(3.), 0., np.sqrt(3.)]), np.array([1., 4., 1.]) / 6)
_x, _w = np.polynomial.hermite_e.hermegauss(5)
GH5 = (_x, _w / _w.sum())


class Law:
    """Rows (initial state index, output) with their probabilities, and what it took to get them."""

    def __init__(self, init, leaves, treedef, w, stats):
        self.init, self.leaves, self.treedef, self.w, self.stats = init, leaves, treedef, w, stats

    @property
    def out(self):
        return tree.tree_unflatten(self.treedef, self.leaves)

    def mass(self, nb):
        return np.bincount(self.init, weights=self.w, minlength=nb)

    def expect(self, values, nb):
        """E[values | init] for values of shape (R, ...)."""
        v = np.asarray(values, float)
        flat = v.reshape(v.shape[0], -1)
        res = np.stack([np.bincount(self.init, weights=self.w * flat[:, j], minlength=nb)
                        for j in range(flat.shape[1])], axis=-1)
        return res.reshape((nb,) + v.shape[1:])


class Staging:
    def __init__(self, ndone, get):
        # ndone: {scan ordinal: completed steps}; get(my, pos) -> (carry, y)
        self.ndone, self.get = ndone, get
        self.merged = set()

    def done(self, my, pos):
        return pos < self.ndone.get(my, 0)

    def fetch(self, my, pos):
        return self.get(my, pos)

    def reached(self, my, pos, carry, y):
        raise Boundary(my, pos, carry, y)


def _mix(cols):
    h = np.full(cols.shape[0], 0x9E3779B97F4A7C15, np.uint64)
    for j in range(cols.shape[1]):
        x = (cols[:, j] ^ h) * np.uint64(0xBF58476D1CE4E5B9)
        x ^= x >> np.uint64(29)
        x *= np.uint64(0x94D049BB133111EB)
        h = x ^ (x >> np.uint64(32))
    return h


def _merge(arrs, w):
    """Merge equal rows of the column arrays `arrs`, adding weights."""
    n = w.shape[0]
    if n == 0:
        return arrs, w
    parts = []
    for a in arrs:
        a = np.ascontiguousarray(a)
        if a.dtype.kind == 'f':
            a = a + 0.
        b = a.reshape(n, -1).view(np.uint8).reshape(n, -1) if a.size else np.zeros((n, 0), np.uint8)
        pad = (-b.shape[1]) % 8
        if pad:
            b = np.concatenate([b, np.zeros((n, pad), np.uint8)], axis=1)
        parts.append(np.ascontiguousarray(b).view(np.uint64).reshape(n, -1))
    cols = np.concatenate(parts, axis=1)
    h = _mix(cols)
    _, first, inv = np.unique(h, return_index=True, return_inverse=True)
    if not np.array_equal(cols[first][inv], cols):  # a hash collision: do it exactly
        _, first, inv = np.unique(cols, axis=0, return_index=True, return_inverse=True)
        inv = inv.reshape(-1)
    return [a[first] for a in arrs], np.bincount(inv, weights=w, minlength=first.shape[0])


CHUNK = 1 << 15


def explore(fn, inits, uniform=2, normal=SIGNS, budget=3e7, merge=True, chunk=CHUNK, drop=1e-300, x32=False):
    """The exact law of `fn(key, *init)` for every init. `inits` is a tuple of arrays with equal leading axis."""
    try:
        with _prec(x32):
            try:
                return _explore(fn, inits, uniform, normal, budget, merge, chunk, drop, x32)
            except MergeUnsound:
                return _explore(fn, inits, uniform, normal, budget, False, chunk, drop, x32)
    except (BudgetExceeded, Unsupported, NeedUnroll):
        raise
    except Exception as e:
        rng.W = None
        with _prec(x32):
            confirm(e, fn, *tree.tree_map(lambda a: jnp.asarray(np.asarray(a)[0]), tuple(inits)))
        raise
    finally:
        rng.W = None


def confirm(e, fn, *args):
    """Does the code also raise when run as shipped, with a real key? Otherwise the exception is the explorer's."""
    rng.W = None
    try:
        fn(jax.random.PRNGKey(0), *args)
        e._mc_confirmed = False
    except Exception:
        e._mc_confirmed = True


def _prec(x32):
    """The code under test runs in its default 32-bit mode if asked for; the explorer itself is always 64-bit."""
    from jax.experimental import disable_x64, enable_x64
    return disable_x64() if x32 else enable_x64()


def _explore(fn, inits, uniform, normal, budget, merge, chunk, drop, x32):
    upts = points(uniform)
    inits = tree.tree_map(np.asarray, tuple(inits))
    B = tree.tree_leaves(inits)[0].shape[0] if tree.tree_leaves(inits) else 1
    world = World(upts, normal)
    root = None
    retained = []  # memo keys of retained digits, in column order
    rows = dict(init=np.arange(B), digits=np.zeros((B, 0), np.int64), sub=[], w=np.ones(B))
    # sub: list over completed scan steps of [leaf arrays]; substructs: (my, pos) -> (slice, treedef of (carry, y))
    layout = []  # list of (my, pos, start, stop, treedef): layout of rows['sub']
    ndone = {}
    merged_kids = set()
    stats = dict(executions=0, states=B, stages=0, draws=0, merged=merge)
    while True:
        hold = {}

        def g(init, digits, sub, n):
            rng.W = world
            fresh = []
            st_kids = set()

            def source(w, mk, radix):
                if mk in retained:
                    return digits[retained.index(mk)], False
                kid = mk[0][0]
                if kid in merged_kids:
                    raise MergeUnsound()
                stride = hold['stride']
                if stride * radix > 2 ** 62:
                    raise BudgetExceeded('too many outcomes')
                hold['stride'] = stride * radix
                d = (n // stride) % radix
                if w.in_step and w.staging is not None:
                    st_kids.add(kid)
                else:
                    fresh.append((mk, d))
                return d, True

            world.begin('batch', source)
            hold['stride'] = 1
            if merge:
                def get(my, pos):
                    for (m_, p_, a, b, td) in layout:
                        if (m_, p_) == (my, pos):
                            carry, y = tree.tree_unflatten(td, sub[a:b])
                            return carry, y
                    raise KeyError((my, pos))

                world.staging = Staging(dict(ndone), get)
            try:
                with jax.ensure_compile_time_eval():
                    key = world.root()
                    try:
                        out = fn(key, *init)
                        hold['kind'] = 'final'
                    except Boundary as b:
                        my, pos, carry, y = b.args
                        out = (carry, y)
                        hold['kind'] = (my, pos)
                leaves, td = tree.tree_flatten(out)
                leaves = [jnp.asarray(l) for l in leaves]
                hold['td'] = td
                hold['fresh'] = [mk for mk, _ in fresh]
                hold['st_kids'] = st_kids
                hold['ndraws'] = len(world.memo) // 2
                return leaves, jnp.asarray(world.weight, float), [jnp.asarray(d) for _, d in fresh]
            finally:
                world.begin('off')
                rng.W = None

        R = rows['w'].shape[0]

        def batch(tabs, r, n):
            init, digits, sub = tabs

            def one(r_, n_):
                return g(tree.tree_map(lambda a: a[r_], init),
                         [digits[r_, j] for j in range(digits.shape[1])],
                         [a[r_] for a in sub], n_)

            return ORIG['vmap'](one)(r, n)

        tabs = (tree.tree_map(lambda a: jnp.asarray(a[rows['init']]), inits), jnp.asarray(rows['digits']),
                [jnp.asarray(a) for a in rows['sub']])
        fl = np.arange(chunk, dtype=np.int64)
        zero = jnp.asarray(np.zeros(chunk, np.int64))
        comp = ORIG['jit'](batch).lower(tabs, zero, zero)
        total = hold['stride']
        if x32 and total >= 2 ** 31:
            raise BudgetExceeded('too many outcomes for the 32-bit mode')
        count = R * total
        if count > budget:
            raise BudgetExceeded(f'{count} executions in one stage')
        comp = comp.compile()
        info = dict(hold)
        acc, accw = None, []
        pend, pendw, npend = [], [], 0

        def flush():
            nonlocal pend, pendw, npend
            if not pend:
                return
            cat = [np.concatenate(c) for c in zip(*pend)]
            m, w = _merge(cat, np.concatenate(pendw))
            pend, pendw, npend = [m], [w], 0

        for s in range(0, count, chunk):
            k = min(chunk, count - s)
            r, n = np.divmod(np.minimum(fl + s, count - 1), total)
            leaves, w, fresh = comp(tabs, jnp.asarray(r), jnp.asarray(n))
            r = r[:k]
            w = np.asarray(w, float)[:k] * rows['w'][r]
            keep = ~(w <= drop)  # NaN weights stay
            r, w = r[keep], w[keep]
            cols = [rows['init'][r]]
            dg = [np.asarray(d)[:k][keep] for d in fresh]
            digs = np.concatenate([rows['digits'][r]] + [d[:, None] for d in dg], axis=1) if dg else rows['digits'][r]
            cols.append(digs if info['kind'] != 'final' else np.zeros((r.shape[0], 0), np.int64))
            lv = [np.asarray(l)[:k][keep] for l in leaves]
            if info['kind'] != 'final':
                cols += [a[r] for a in rows['sub']]
            cols += lv
            cols, w = _merge(cols, w)
            pend.append(cols)
            pendw.append(w)
            npend += w.shape[0]
            if npend > 2_000_000:
                flush()
        flush()
        cols, w = pend[0], pendw[0]
        stats['executions'] += count
        stats['states'] += w.shape[0]
        stats['stages'] += 1
        stats['draws'] += info['ndraws']
        if info['kind'] == 'final':
            return Law(cols[0], cols[2:], info['td'], w, stats)
        my, pos = info['kind']
        nsub = len(rows['sub'])
        newsub = cols[2:]
        # the carry of the previous step of this scan is no longer needed: drop it and re-merge
        td = info['td']
        start = nsub
        layout = layout + [(my, pos, nsub, len(newsub), td)]
        ndone[my] = pos + 1
        retained.extend(info['fresh'])
        merged_kids |= info['st_kids']
        newsub, layout = _drop_old_carry(newsub, layout, my, pos)
        cols2, w = _merge(cols[:2] + newsub, w)
        rows = dict(init=cols2[0], digits=cols2[1], sub=cols2[2:], w=w)


def _drop_old_carry(sub, layout, my, pos):
    """Replace the carry stored for step pos-1 of scan `my` by nothing (it has been consumed)."""
    new, nl = [], []
    for (m_, p_, a, b, td) in layout:
        leaves = sub[a:b]
        if m_ == my and p_ == pos - 1:
            # treedef of (carry, y): keep only y
            idx = list(range(b - a))
            carry_ix, y_ix = tree.tree_unflatten(td, idx)
            keep = tree.tree_leaves(y_ix)
            td2 = tree.tree_structure((None, y_ix))
            leaves = [leaves[i] for i in keep]
            td = td2
        nl.append((m_, p_, len(new), len(new) + len(leaves), td))
        new += leaves
    return new, nl


# ---------------------------------------------------------------------------------------------------------------------
# eager depth-first enumeration
# ---------------------------------------------------------------------------------------------------------------------
def enumerate_eager(fn, *args, uniform=2, normal=SIGNS, limit=10 ** 6):
    """Yield (outcome path, output, probability) for every resolution of the draws of `fn(key, *args)`."""
    upts = points(uniform)
    world = World(upts, normal)
    path = []
    count = 0
    while True:
        radices = []
        taken = []

        def source(w, mk, radix):
            i = len(taken)
            d = path[i] if i < len(path) else 0
            taken.append(d)
            radices.append(radix)
            return d, True

        rng.W = world
        world.begin('eager', source)
        try:
            out = fn(world.root(), *args)
            wt = float(world.weight)
        finally:
            world.begin('off')
            rng.W = None
        yield tuple(taken), out, wt
        count += 1
        if count > limit:
            raise BudgetExceeded(f'more than {limit} executions')
        path = taken
        while path and path[-1] + 1 >= radices[len(path) - 1]:
            path = path[:-1]
        if not path:
            return
        path = path[:-1] + [path[-1] + 1]


def uses(fn, *args, uniform=2, normal=SIGNS, abstract=True):
    """How every key is used during one execution of `fn(key, *args)` along all branches: {key id: [uses]}."""
    world = World(points(uniform), normal)
    res = {}

    def run(*a):
        rng.W = world
        world.begin('uses', lambda w, mk, radix: (jnp.zeros((), jnp.int64) * 0, True))
        try:
            with jax.ensure_compile_time_eval():
                out = fn(world.root(), *a)
            res['uses'] = {k: list(v) for k, v in world.uses.items()}
            return tree.tree_map(jnp.asarray, out)
        finally:
            world.begin('off')
            rng.W = None

    if abstract:
        jax.eval_shape(run, *args)
    else:
        run(*args)
    return res['uses'], world


def conformance(fn, inits, law, nkeys, nb, rows=None, decimals=9):
    """Run the code as shipped, with real JAX keys, and look its outputs up in the explored support.

    Returns the number of executions validated; raises AssertionError with the first output that was not explored."""
    inits = tree.tree_map(np.asarray, tuple(inits))
    sel = np.arange(nb) if rows is None else np.asarray(rows)
    keys = jax.vmap(lambda i: jax.random.split(jax.random.PRNGKey(i), nkeys))(jnp.arange(sel.shape[0]))
    sub = tree.tree_map(lambda a: jnp.asarray(a[sel]), inits)
    f = jax.jit(jax.vmap(lambda ks, *a: jax.vmap(lambda k: fn(k, *a))(ks)))
    outs = tree.tree_leaves(f(keys, *sub))
    support = set()

    def keyify(i, leaves, r):
        return (int(i),) + tuple(tuple(np.round(np.asarray(l[r], float).ravel(), decimals) + 0.) for l in leaves)

    pos = law.w > 0
    want = set(sel.tolist())
    for r in np.nonzero(pos)[0]:
        if int(law.init[r]) in want:
            support.add(keyify(law.init[r], law.leaves, r))
    n = 0
    outs = [np.asarray(o) for o in outs]
    for a, i in enumerate(sel):
        for b in range(nkeys):
            k = (int(i),) + tuple(tuple(np.round(np.asarray(o[a, b], float).ravel(), decimals) + 0.) for o in outs)
            assert k in support, f'output of a real run was not explored: init {int(i)}, output {k[1:]}'
            n += 1
    return n


# ---------------------------------------------------------------------------------------------------------------------
# the code as a function of its noise
# ---------------------------------------------------------------------------------------------------------------------
class Noise:
    """`fn(key, *args)` as a pure function of the normal and uniform variates it draws and of its discrete choices.

    Calling it with (z, u, digits, *args) runs the code with exactly these variates, in the order of drawing."""

    def __init__(self, fn, *args):
        self.fn = fn
        self.world = World(grid(2), SIGNS)
        self.radices = None
        self._run(None, None, None, args, record=True)
        self.nz = self.ntaken['normal']
        self.nu = self.ntaken['uniform']
        self._jit = ORIG['jit'](lambda z, u, d, a: self._run(z, u, d, a))
        self._vjit = ORIG['jit'](ORIG['vmap'](lambda z, u, d, a: self._run(z, u, d, a), in_axes=(0, 0, 0, None)))

    def _run(self, z, u, d, args, record=False):
        w = self.world
        radices = []

        def source(w_, mk, radix):
            i = len(radices)
            radices.append(radix)
            return (0 if d is None else d[i]), True

        rng.W = w
        w.begin('feed', source)
        try:
            if not record:
                w.feed = dict(normal=z, uniform=u)
            if record:
                with jax.ensure_compile_time_eval():
                    out = self.fn(w.root(), *args)
                self.specs = list(w.fed)
                self.ntaken = dict(w.taken)
                self.radices = radices
                self.out0 = out
            else:
                with jax.ensure_compile_time_eval():
                    out = self.fn(w.root(), *args)
                if w.fed != self.specs or radices != self.radices:
                    raise Unsupported('the draws of the code depend on traced values')
            return tree.tree_map(jnp.asarray, out)
        finally:
            w.begin('off')
            rng.W = None

    def _fill(self, z, u, d, batch=()):
        z = jnp.zeros(batch + (self.nz,)) if z is None else jnp.asarray(z)
        u = jnp.full(batch + (self.nu,), 0.5) if u is None else jnp.asarray(u)
        d = jnp.zeros(batch + (len(self.radices),), jnp.int64) if d is None else jnp.asarray(d)
        return z, u, d

    def __call__(self, *args, z=None, u=None, d=None):
        return tree.tree_map(np.asarray, self._jit(*self._fill(z, u, d), args))

    def batch(self, *args, z=None, u=None, d=None):
        n = [len(x) for x in (z, u, d) if x is not None][0]
        return tree.tree_map(np.asarray, self._vjit(*self._fill(z, u, d, (n,)), args))

    def grid(self, pts=(-2., -1., 0., 1., 3.), limit=20000):
        """Every vector of normals over the points (over fewer of them when there would be too many)."""
        pts = tuple(pts)
        while len(pts) ** self.nz > limit and len(pts) > 2:
            pts = pts[1:-1] if len(pts) > 3 else (-1., 2.)
        if len(pts) ** self.nz > limit:
            raise BudgetExceeded(f'{self.nz} normals')
        return np.array(list(itertools.product(pts, repeat=self.nz))).reshape(-1, self.nz)

    def real(self, seed):
        """The variates (z, u) that PRNGKey(seed) gives the draws of the code."""
        root = jax.random.PRNGKey(seed)
        vals = dict(normal=[np.zeros(0)], uniform=[np.zeros(0)])
        for kind, kid, shape, dtype in self.specs:
            v = ORIG['random.' + kind](self.world.real_key(kid, root), shape, dtype)
            vals[kind].append(np.asarray(v, float).ravel())
        if self.radices:
            raise Unsupported('replay with discrete draws')
        return np.concatenate(vals['normal']), np.concatenate(vals['uniform'])

    def shipped(self, seed, *args):
        return tree.tree_map(np.asarray, self.fn(jax.random.PRNGKey(seed), *args))


def flat(out):
    return np.concatenate([np.asarray(l, float).ravel() for l in tree.tree_leaves(out)])


def flatb(out):
    ls = [np.asarray(l, float) for l in tree.tree_leaves(out)]
    return np.concatenate([l.reshape(l.shape[0], -1) for l in ls], axis=1)


def affine(ck, noise, *args, what='output', tol=1e-8, seeds=1):
    """Establish that the output is affine in the normals on every point of a grid: returns (offset, matrix).

    Executions of the code as shipped (real keys) are compared with the explored function at the variates of their keys."""
    n = noise.nz
    try:
        Z = noise.grid()
    except BudgetExceeded:  # too many normals for a full grid: every axis both ways, and patterns over all of them
        i = np.arange(n)
        Z = np.concatenate([-np.eye(n), 2.5 * np.eye(n), [1.3 * np.sin(1.7 * i + k) for k in range(6)],
                            [np.where(i % k == 0, 1.5, -0.5) for k in range(2, 8)]])
    real = [noise.real(s) for s in range(seeds)]
    B = np.concatenate([Z, np.zeros((1, n)), np.eye(n)] + [z[None] for z, _ in real])
    vals = flatb(noise.batch(*args, z=B))
    k = len(Z)
    c = vals[k]
    J = (vals[k + 1:k + 1 + n] - c).T
    ck.count(states=k, transitions=k * max(1, len(noise.specs)))
    for s in range(seeds):
        ck.close(flat(noise.shipped(s, *args)), vals[k + 1 + n + s], 'replay',
                 f'run with key {s} differs from the explored function', tol=max(tol, 1e-8))
    ck.count(traces=seeds)
    ck.close(vals[:k], c + Z @ J.T, 'affine', f'{what} is not affine in the Gaussian noise', tol=tol)
    return c, J


def replays(ck, noise, seeds, *args, tol=1e-8):
    """Real executions must be what the explored function gives for the variates of their keys."""
    real = [noise.real(s) for s in range(seeds)]
    vals = flatb(noise.batch(*args, z=np.array([z for z, _ in real]), u=np.array([u for _, u in real])))
    for s in range(seeds):
        ck.close(flat(noise.shipped(s, *args)), vals[s], 'replay',
                 f'run with key {s} differs from the explored function', tol=tol)
    ck.count(traces=seeds)

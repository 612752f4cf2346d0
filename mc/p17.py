"""Training steps and parameter averaging: all histories up to a bound, against a reference transition system."""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
import optax
from fbs.nn.utils import make_optax_kernel


# ---- reference optimisers, written out in numpy --------------------------------------------------------------------
class Ref:
    def __init__(self, kind):
        self.kind = kind

    def start(self, p):
        return dict(n=0, m=np.zeros_like(p), v=np.zeros_like(p))

    def step(self, s, g, p):
        n = s['n']
        k = self.kind
        if k == 'sgd':
            return dict(s, n=n + 1), p - 0.25 * g
        if k == 'momentum':
            m = g + 0.5 * s['m']
            return dict(s, n=n + 1, m=m), p - 0.25 * m
        if k == 'schedule':
            return dict(s, n=n + 1), p - 0.5 / (1 + n) * g
        if k == 'clipped':
            nrm = np.sqrt((g ** 2).sum())
            return dict(s, n=n + 1), p - 0.25 * (g if nrm < 0.5 else g / nrm * 0.5)
        b1, b2, eps = 0.9, 0.999, 1e-8
        m, v = b1 * s['m'] + (1 - b1) * g, b2 * s['v'] + (1 - b2) * g ** 2
        up = (m / (1 - b1 ** (n + 1))) / (np.sqrt(v / (1 - b2 ** (n + 1))) + eps)
        if k == 'adamw':
            up = up + 0.01 * p
        return dict(n=n + 1, m=m, v=v), p - 0.125 * up

    def optax(self):
        return dict(sgd=lambda: optax.sgd(0.25), momentum=lambda: optax.sgd(0.25, momentum=0.5),
                    schedule=lambda: optax.sgd(lambda n: 0.5 / (1 + n)),
                    clipped=lambda: optax.chain(optax.clip_by_global_norm(0.5), optax.sgd(0.25)),
                    adam=lambda: optax.adam(0.125, eps=1e-8), adamw=lambda: optax.adamw(0.125, weight_decay=0.01))[self.kind]()


BATCHES = [np.array([1., -0.5, 2.]), np.array([0.3, 4., -1.]), np.array([-2., 0., 0.7])]


def loss(p, b, scale=1., flip=False):
    """A non-quadratic loss with its gradient worked out by hand below."""
    r = p - b
    return scale * (jnp.sum(r ** 4) / 4 + jnp.sum(p[:-1] * p[1:])) * (jnp.where(flip, -1., 1.))


def loss_np(p, b, scale=1., flip=False):
    return scale * ((p - b) ** 4 / 4).sum() + scale * (p[:-1] * p[1:]).sum() if not flip else -loss_np(p, b, scale)


def grad_np(p, b, scale=1., flip=False):
    g = (p - b) ** 3
    g[1:] += p[:-1]
    g[:-1] += p[1:]
    return (-1 if flip else 1) * scale * g


def training(ck, kind, jit, depth, how):
    """All batch histories up to the depth, explored as a tree: each state is the (parameters, optimiser state) reached."""
    ref = Ref(kind)
    opt = ref.optax()
    kernel, _ = make_optax_kernel(opt, loss, **({} if jit is None else dict(jit=jit)))
    p0 = np.array([0.2, -1., 0.5])
    moves = [(b, kw) for b in range(len(BATCHES)) for kw in how]
    frontier = [(jnp.asarray(p0), opt.init(jnp.asarray(p0)), p0, ref.start(p0), ())]
    for d in range(depth):
        nxt = []
        for p, s, pr, sr, hist in frontier:
            for b, kw in moves:
                args = () if 'args' not in kw else tuple(kw['args'])
                kws = {k: v for k, v in kw.items() if k != 'args'}
                full = dict(zip(('scale', 'flip'), args), **kws)
                before = np.asarray(p).copy()
                p2, s2, l = kernel(p, s, jnp.asarray(BATCHES[b]), *args, **kws)
                h = hist + ((b, kw),)
                ck.require(np.array_equal(before, p), 'pure', 'the step changes its input')
                ck.close(l, loss_np(pr, BATCHES[b], **full), 'loss', f'loss at the parameters before step {d} of {h}', tol=1e-9)
                sr2, pr2 = ref.step(sr, grad_np(pr.copy(), BATCHES[b], **full), pr)
                ck.close(p2, pr2, 'step', f'parameters of {kind} after {h}', tol=1e-8)
                nxt.append((p2, s2, pr2, sr2, h))
        ck.count(states=len(nxt), transitions=len(nxt))
        if kind in ('adam', 'adamw'):  # the optimiser state that is handed on
            for p2, s2, pr2, sr2, h in nxt[:9]:
                ck.close(np.asarray(s2[0].mu), sr2['m'], 'state', f'first moment after {h}', tol=1e-8)
                ck.close(np.asarray(s2[0].nu), sr2['v'], 'state', f'second moment after {h}', tol=1e-8)
                ck.require(int(s2[0].count) == d + 1, 'state', f'step count after {h}')
        elif kind == 'momentum':
            for p2, s2, pr2, sr2, h in nxt[:9]:
                ck.close(np.asarray(jax.tree_util.tree_leaves(s2)[0]), sr2['m'], 'state', f'momentum after {h}', tol=1e-8)
        frontier = nxt
    ck.count(traces=len(frontier))
    ck.sample(optimiser=kind, jit=jit, history=[h[0] for h in frontier[-1][4]], parameters=np.asarray(frontier[-1][0]))


def pytree(ck, jit):
    """Parameters held in a tree."""
    opt = optax.sgd(0.5)
    kernel, _ = make_optax_kernel(opt, lambda p, x: jnp.sum((p['w'] @ x + p['b']) ** 2), jit)
    for xs in itertools.product((-1., 0.5, 2.), repeat=2):
        x = np.array(xs)
        W, b = np.array([[1., 2.], [0., -1.]]), np.array([0.5, 1.])
        p = dict(w=jnp.asarray(W), b=jnp.asarray(b))
        p2, _, l = kernel(p, opt.init(p), jnp.asarray(x))
        r = W @ x + b
        ck.close(l, (r ** 2).sum(), 'loss', 'loss of tree parameters')
        ck.close(p2['w'], W - 0.5 * 2 * np.outer(r, x), 'step', 'tree parameters', tol=1e-9)
        ck.close(p2['b'], b - 0.5 * 2 * r, 'step', 'tree parameters', tol=1e-9)
        ck.count(states=1, transitions=1)


# ---- averaging -----------------------------------------------------------------------------------------------------
def averaging(ck, start, every, decay, depth):
    """All histories of parameter values over `depth` counts, and all single steps at arbitrary counts."""
    _, ema = make_optax_kernel(optax.sgd(0.1), loss)
    vals = [np.array([1., -2.]), np.array([0.25, 8.])]
    e0 = np.array([5., 7.])
    frontier = [(jnp.asarray(e0), e0, ())]
    for count in range(depth):
        nxt = []
        for e, er, hist in frontier:
            for i, v in enumerate(vals):
                before = np.asarray(e).copy()
                e2 = ema(e, jnp.asarray(v), count, start, every, decay)
                if count < start:
                    want = v
                elif count % every == 0:
                    want = decay * er + (1 - decay) * v
                else:
                    want = er
                h = hist + (i,)
                ck.close(e2, want, 'average', f'averaged parameters at count {count} (start {start}, every {every}, decay {decay}) after '
                         f'parameters {h}', tol=1e-12)
                ck.require(np.array_equal(before, e), 'pure', 'the input is changed')
                nxt.append((e2, want, h))
        seen = {}
        for x in nxt:  # equal states are merged
            seen.setdefault(tuple(x[1]), x)
        ck.count(states=len(seen), transitions=len(nxt))
        frontier = list(seen.values())
    ck.count(traces=len(frontier))
    for count in (0, 1, 7, 99, 100, 101, 1000, 12345):
        for s in (0, 100, 101, 5000):
            for ev in (1, 2, 10, 100):
                got = ema(jnp.asarray(e0), jnp.asarray(vals[0]), count, s, ev, decay)
                want = vals[0] if count < s else (decay * e0 + (1 - decay) * vals[0] if count % ev == 0 else e0)
                ck.close(got, want, 'average', f'count {count}, start {s}, every {ev}, decay {decay}', tol=1e-12)
                ck.count(states=1, transitions=1)
    ck.sample(start=start, every=every, decay=decay, average=np.asarray(frontier[-1][0]))


def decays(ck):
    """The compiled update is not stuck at the first decay it saw; parameters of any shape and float type."""
    _, ema = make_optax_kernel(optax.sgd(0.1), loss)
    for order in itertools.permutations((0., 0.5, 0.99, 1.)):
        for d in order:
            for shape in ((), (3,), (2, 2)):
                for dt in (np.float32, np.float64):
                    e, p = np.full(shape, 3., dt), np.full(shape, -1., dt)
                    got = ema(jnp.asarray(e), jnp.asarray(p), 4, 2, 2, d)
                    ck.close(got, d * e + (1 - d) * p, 'average', f'decay {d}', tol=1e-6 if dt == np.float32 else 1e-12)
                    ck.count(states=1, transitions=1)


def together(ck, start, every, depth):
    """Training and averaging interleaved as in the training scripts."""
    ref = Ref('momentum')
    opt = ref.optax()
    kernel, ema = make_optax_kernel(opt, loss)
    for hist in itertools.product(range(len(BATCHES)), repeat=depth):
        p0 = np.array([0.2, -1., 0.5])
        p, s, e = jnp.asarray(p0), opt.init(jnp.asarray(p0)), jnp.asarray(p0)
        pr, sr, er = p0, ref.start(p0), p0
        for n, b in enumerate(hist):
            p, s, l = kernel(p, s, jnp.asarray(BATCHES[b]))
            e = ema(e, p, n, start, every, 0.75)
            sr, pr = ref.step(sr, grad_np(pr.copy(), BATCHES[b]), pr)
            er = pr if n < start else (0.75 * er + 0.25 * pr if n % every == 0 else er)
            ck.close(e, er, 'average', f'average after batches {hist[:n + 1]}', tol=1e-8)
            ck.close(p, pr, 'step', f'parameters after batches {hist[:n + 1]}', tol=1e-8)
        ck.count(states=depth, transitions=2 * depth, traces=1)


def run(ck):
    plain = [{}]
    rich = [{}, dict(scale=0.5), dict(args=(2.,)), dict(args=(1., True)), dict(scale=0.25, flip=True)]
    deep = 5 if ck.thorough else 4
    for kind in ('sgd', 'momentum', 'schedule', 'clipped', 'adam', 'adamw'):
        for jit in (None, True, False):
            ck.case(f'training-{kind}-{jit}', training, ck, kind, jit, deep if jit is not False else 2, plain)
            ck.case(f'arguments-{kind}-{jit}', training, ck, kind, jit, 2 if jit is not False else 1, rich)
    for jit in (True, False):
        ck.case(f'tree-{jit}', pytree, ck, jit)
    for start in (0, 1, 2, 3, 5):
        for every in (1, 2, 3, 4):
            for decay in (0., 0.5, 0.9, 0.99, 1.):
                ck.case(f'average-{start}-{every}-{decay}', averaging, ck, start, every, decay, 7 if not ck.thorough else 11)
    ck.case('decays', decays, ck)
    for start, every in ((0, 1), (2, 2), (1, 3)):
        ck.case(f'together-{start}-{every}', together, ck, start, every, 4 if not ck.thorough else 6)
    ck.bound('six optimisers, all sequences of 3 batches (and of 15 batch/argument combinations) up to depth 4 (2); averaging: starts '
             '0..5, periods 1..4, 5 decays, all two-valued parameter histories of 7 steps, and 128 single steps at large counts')

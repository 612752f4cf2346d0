"""Long runs with many particles.

The laws are explored exactly for a few particles and steps only.  Here the samplers run with up to 33 particles and 20 steps of
states with two axes, in situations in which every random choice has one outcome (up to exchange of identical particles):
deterministic transitions, given resampling maps or weights that leave one particle.  The result is then a function of the inputs, which a
reference in numpy gives; it must be the same for every key."""
import numpy as np
import jax
import jax.numpy as jnp
from mc import rng
from mc.explore import Noise

SHAPE = (2, 2)
KEYS = 6
FLAG = 99.    # marks the reference path


def lse(a):
    m = np.max(a)
    return m + np.log(np.exp(a - m).sum())


class World:
    """Deterministic transitions that remember where a particle comes from, at which times and with which observations."""

    def __init__(self, K, N, seed, B=50.):
        r = np.random.default_rng(seed)
        self.K, self.N, self.B, self.theta = K, N, B, 0.25
        self.ts = 0.3 + np.concatenate([[0.], np.cumsum(r.uniform(0.05, 0.4, K))])
        self.vs = r.normal(size=(K + 1, 3))
        self.a, self.b, self.c = r.normal(size=(3, 3))
        self.roots = np.zeros((N, *SHAPE))
        self.roots[:, 0, 0] = 1. + np.arange(N)
        self.gap, self.kref, self.tied = np.inf, None, False

    def step(self, us, v, t, theta=0., xp=np):
        root, h = us[:, 0, 0], us[:, 0, 1]
        h = .6 * h + xp.sin((v * self.c).sum() + 2 * t + theta + root)
        return xp.stack([xp.stack([root, h], -1), xp.stack([0 * h + t, 0 * h + v[0]], -1)], -2)

    def score(self, v, us, w, t, theta=0., xp=np):
        root, h, s = us[:, 0, 0], us[:, 0, 1], us[:, 1, 0]
        r = self.B * xp.sin(3 * root + 5 * h + s + 2 * t + (v * self.a).sum() + 3 * (w * self.b).sum() + theta)
        chosen = -1. if self.kref is None else xp.where(xp.abs(t - self.ts[self.kref]) < 1e-9, 1., -1.)
        return r + xp.where(us[:, 1, 1] > FLAG / 2, 3 * self.B * chosen, 0.)   # the reference is chosen at one step, or never

    # what is given to the samplers
    def init(self, key, *a):
        return jnp.asarray(self.roots)

    def transition(self, us, v, t, key, theta=0.):
        return self.step(us, v, t, theta, jnp)

    def loglik(self, v, us, w, t, theta=0.):
        return self.score(v, us, w, t, theta, jnp)

    def seen(self, us, lw):
        """Records how well the choice among different particles is determined."""
        flat = np.asarray(us).reshape(len(us), -1)
        best = np.argmax(lw)
        other = np.abs(flat - flat[best]).max(1) > 1e-9
        if other.any():
            self.gap = min(self.gap, lw[best] - lw[other].max())
        return best


def best_odd(w, xp=np):
    n = w.shape[0]
    return xp.where(xp.arange(n) % 2 == 1, xp.argmax(w), xp.arange(n))


MAPS = dict(same=lambda w, xp=np: xp.arange(w.shape[0]), reverse=lambda w, xp=np: xp.arange(w.shape[0])[::-1], odd=best_odd,
            best=lambda w, xp=np: xp.full((w.shape[0],), xp.argmax(w)),
            half=lambda w, xp=np: xp.argsort(-w)[xp.arange(w.shape[0]) // 2])
SIZES = ((1, 4), (2, 1), (5, 9), (8, 4), (17, 3), (33, 20), (300, 5))


def worlds(K, N, need, B, f, kref=None):
    """The first world in which the reference is determined with a margin."""
    for seed in range(200):
        w = World(K, N, seed, B)
        w.kref = kref
        out = f(w)
        if w.gap > need:
            return w, out
    return None


def every_key(fn):
    """The results for several keys, of the shipped code with real random numbers."""
    rng.W, old = None, rng.W
    try:
        ks = jax.random.split(jax.random.PRNGKey(0), KEYS)
        return jax.tree_util.tree_map(np.asarray, jax.jit(jax.vmap(fn))(ks))
    finally:
        rng.W = old


def same(ck, got, want, sig, msg, tol=1e-7):
    got, want = np.asarray(got), np.asarray(want)
    ck.require(got.shape[1:] == want.shape, 'wide-shape', f'{msg}: shape {got.shape[1:]} instead of {want.shape}')
    ok = np.all(np.abs(got - want) <= tol * (1 + np.abs(want)))
    ck.require(ok, sig, f'{msg}: differs by {np.max(np.abs(got - want)):.3g} from the only possible result')


def done(ck, w):
    ck.count(states=(w.K + 1) * w.N, transitions=w.K * w.N, traces=KEYS)


# ---- filters --------------------------------------------------------------------------------------------------------------
def filter_ref(w, m, before=False):
    """Resampling after the transition (bootstrap filter), or before it (particle MCMC)."""
    us, ell, hist = w.roots, 0., [w.roots]
    for k in range(w.K):
        lw = w.score(w.vs[k + 1], us, w.vs[k], w.ts[k], w.theta)
        w.seen(us, lw)
        z = lse(lw)
        ell += z - np.log(w.N)
        inds = MAPS[m](np.exp(lw - z))
        if m == 'half':
            d = np.diff(np.sort(lw))
            w.gap = min(w.gap, d[d > 1e-9].min() if (d > 1e-9).any() else np.inf)
        us = w.step(us[inds], w.vs[k], w.ts[k], w.theta)
        hist.append(us)
    return np.stack(hist), ell


def filters(ck, bootstrap_filter, K, N, m):
    for log in (True, False):
        got = worlds(K, N, 1e-4, 5., lambda w: filter_ref(w, m))
        if got is None:
            raise rng.Unsupported('no determined world')
        w, (hist, ell) = got
        pdf = (lambda *a, **k: w.loglik(*a, **k)) if log else (lambda *a, **k: jnp.exp(w.loglik(*a, **k)))
        for last in (True, False):
            us, nell = every_key(lambda key: bootstrap_filter(w.transition, pdf, jnp.asarray(w.vs), jnp.asarray(w.ts), w.init, key, N,
                                                              lambda ws, key_: MAPS[m](ws, jnp), log=log, return_last=last, theta=w.theta))
            same(ck, us, hist[-1] if last else hist, 'wide-samples', f'{N} particles, {K} steps, map {m}')
            same(ck, nell, -ell, 'wide-likelihood', f'{N} particles, {K} steps, map {m}')
            done(ck, w)


def pmcmc(ck, pmcmc_kernel, K, N, m):
    got = worlds(K, N, 1e-4, 5., lambda w: filter_ref(w, m))
    if got is None:
        raise rng.Unsupported('no determined world')
    w, (hist, ell) = got
    y0, old_u, old_ys = jnp.asarray(w.vs[-1]), 7 * jnp.ones(SHAPE), jnp.ones((K + 1, 3))
    for accept in (True, False):
        old = ell + (-800. if accept else 800.)
        uT, le, ys, st = every_key(lambda key: pmcmc_kernel(key, old_u, old, old_ys, y0, jnp.asarray(w.ts), lambda key_, y: jnp.asarray(w.vs[::-1].copy()), None,
                                                            w.init, w.transition, w.loglik, lambda ws, key_: MAPS[m](ws, jnp), N, theta=w.theta))
        what = f'{N} particles, {K} steps, map {m}, {"accepted" if accept else "rejected"}'
        same(ck, st.prop_log_ell, ell, 'wide-likelihood', what)
        same(ck, le, ell if accept else old, 'wide-state', what)
        same(ck, ys, w.vs[::-1] if accept else np.ones((K + 1, 3)), 'wide-state', what)
        if accept:
            d = np.abs(np.asarray(uT)[:, None] - hist[-1][None]).reshape(KEYS, N, -1).max(-1).min(1)
            ck.require((d < 1e-7).all(), 'wide-samples', f'{what}: the state is none of the particles')
        else:
            same(ck, uT, np.full(SHAPE, 7.), 'wide-state', what)
        done(ck, w)


# ---- conditional SMC --------------------------------------------------------------------------------------------------------
def refs(w):
    r = np.random.default_rng(9)
    us = r.normal(size=(w.K + 1, *SHAPE)) + 40.
    us[:, 1, 1] = FLAG
    return us, r.integers(0, w.N, w.K + 1)


def transition_logpdf(w, C=1e5):
    def f(x, xs, v, t, theta=0., xp=np):
        return -C * ((x - w.step(xs, v, t, theta, xp)) ** 2).sum((-1, -2))
    return f


def csmc_ref(w, m, backward, init=None, last=False, init_lik=True):
    us_star, bs = refs(w) if init is None else init[:2]
    us = (w.roots if init is None else init[2]).copy()
    us[bs[0]] = us_star[0]
    lw = w.score(w.vs[0], us, w.vs[1], 0., w.theta) if init_lik else np.zeros(w.N)
    hist, lws, As = [us], [lw], []
    for k in range(w.K):
        if m == 'real' and np.ptp(lw) < 1e-9:    # equal weights: all stay (killing), up to an exchange of identical particles
            w.tied, A = True, np.arange(w.N)
        elif m == 'real':    # weights that leave one particle: everything but the reference is that particle
            A = np.full(w.N, w.seen(us, lw))
        else:
            w.seen(us, lw)
            A = np.array(MAPS[m](np.exp(lw - lse(lw))))
        A[bs[k + 1]] = bs[k]
        prev = us[A]
        us = w.step(prev, w.vs[k], w.ts[k], w.theta)
        us[bs[k + 1]] = us_star[k + 1]
        lw = w.score(w.vs[k + 1], prev, w.vs[k], w.ts[k], w.theta)
        hist.append(us)
        lws.append(lw)
        As.append(A)
    B = final(w, us, lws[-1])
    if last:
        return us[B]
    path = [us[B]]
    for k in range(w.K - 1, -1, -1):
        if backward:
            g = transition_logpdf(w)(path[0], hist[k], w.vs[k], w.ts[k], w.theta) + w.score(w.vs[k + 1], hist[k], w.vs[k], w.ts[k], w.theta) \
                + lws[k] - lse(lws[k])
            B = final(w, hist[k], g)
        else:
            B = As[k][B]
        path.insert(0, hist[k][B])
    return np.stack(path)


def final(w, us, lw):
    """A categorical draw that has one outcome."""
    best = np.argmax(lw)
    flat = us.reshape(len(us), -1)
    other = np.abs(flat - flat[best]).max(1) > 1e-9
    if other.any() and lw[best] - lw[other].max() < 60.:
        w.gap = -1.
    return best


def csmc(ck, kernel, schemes, K, N, m, backward, kref=None):
    got = worlds(K, N, 60. if m == 'real' else 1e-4, 1e5 if N < 100 else 1e9, lambda w: csmc_ref(w, m, backward), kref)
    if got is None:
        raise rng.Unsupported('no determined world')
    w, path = got
    us_star, bs = refs(w)
    conds = {n: f for n, f in schemes.items() if n == 'killing' or not w.tied} if m == 'real' else {m: lambda key, ws, i, j, c=True: MAPS[m](ws, jnp).at[j].set(i)}
    f = transition_logpdf(w)
    for name, cond in conds.items():
        xs, B = every_key(lambda key: kernel(key, jnp.asarray(us_star), jnp.asarray(bs), jnp.asarray(w.vs), jnp.asarray(w.ts), w.init,
                                             lambda v0, us, v1, theta=0.: w.loglik(v0, us, v1, 0., theta), w.transition,
                                             lambda *a, **k: f(*a, **k, xp=jnp), w.loglik, cond, N - 1, backward=backward, theta=w.theta))
        same(ck, xs, path, 'wide-path', f'{N} particles, {K} steps, {name}, backward={backward}')
        ck.require(((B >= 0) & (B < N)).all(), 'wide-labels', f'{N} particles, {K} steps, {name}: labels out of range')
        done(ck, w)


def gibbs(ck, kernel, K, N, explicit, kref=None):
    """All particles start at the end of the noising path of the state; the weights leave one of the two kinds at every step."""
    def setup(w):
        r = np.random.default_rng(5)
        noise, bs = r.normal(size=(K + 1, *SHAPE)), r.integers(0, N, K + 1)
        up, mask = np.linspace(0., 1., K + 1)[:, None, None], np.ones((K + 1, *SHAPE))
        mask[:, 1, 1] = 0.
        flag = np.where(np.arange(K + 1) < K, FLAG, 0.)[:, None, None] * (1 - mask)
        return lambda x0: (x0[None] * (1 - .7 * up) + noise * up) * mask + flag, bs, r.normal(size=SHAPE)

    def ref(w):
        path, bs, x0 = setup(w)
        us = path(x0)[::-1]
        start = np.broadcast_to(us[0], (N, *SHAPE)).copy()
        out = csmc_ref(w, 'real', False, (us, bs, start), last=explicit, init_lik=False)
        return path(out)[::-1] if explicit else out

    got = worlds(K, N, 60., 1e5 if N < 100 else 1e9, ref, kref)
    if got is None:
        raise rng.Unsupported('no determined world')
    w, want = got
    path, bs, x0 = setup(w)
    y0 = jnp.asarray(w.vs[-1])
    fwd = lambda key, x, y, theta=0.: (path(x), jnp.asarray(w.vs[::-1].copy()))
    f = transition_logpdf(w)
    x, us, b, flags = every_key(lambda key: kernel(key, jnp.asarray(x0), y0, jnp.zeros((K + 1, *SHAPE)), jnp.asarray(bs), jnp.asarray(w.ts), fwd, None,
                                                   lambda p, theta=0.: p, N, w.transition, lambda *a, **k: f(*a, **k, xp=jnp), w.loglik,
                                                   marg_y=False, explicit_backward=explicit, explicit_final=False, theta=w.theta))
    what = f'{N} particles, {K} steps, explicit_backward={explicit}'
    same(ck, us, want, 'wide-path', what)
    same(ck, x, want[-1], 'wide-state', what)
    ck.require(((b >= 0) & (b < N)).all() and np.array_equal(flags, b != bs), 'wide-labels', what)
    done(ck, w)


# ---- twisted SMC and the smoother -----------------------------------------------------------------------------------------------
def twisted(ck, twisted_smc, K, N, m):
    y = np.array([.3, -.8, 1.1])

    def psi(w, xs, t, xp):
        return 4 * xp.sin(2 * xs[:, 0, 0] + 3 * xs[:, 0, 1] + xs[:, 1, 0] + 2 * t + (y * w.a).sum())

    def lp(w, xs, xp_, t, xp):
        return 2 * xp.cos(xs[:, 0, 1] + 2 * xp_[:, 0, 1] + 3 * t + xs[:, 0, 0])

    def lq(w, xs, xp_, t, xp):
        return xp.sin(2 * xs[:, 0, 1] - xp_[:, 0, 1] + t + (y * w.c).sum())

    def ref(w):
        xs = w.roots
        ps = psi(w, xs, w.ts[0], np)
        lw = ps - lse(ps)
        for k in range(K):
            d = np.diff(np.sort(lw))
            w.gap = min(w.gap, d[d > 1e-9].min() if (d > 1e-9).any() else np.inf)
            i = MAPS[m](np.exp(lw))
            prev, pprev = xs[i], ps[i]
            xs = w.step(prev, y, w.ts[k], w.theta)
            ps = psi(w, xs, w.ts[k + 1], np)
            lw = lp(w, xs, prev, w.ts[k], np) + ps - lq(w, xs, prev, w.ts[k], np) - pprev
            lw = lw - lse(lw)
        return xs, lw

    got = worlds(K, N, 1e-4, 5., ref)
    if got is None:
        raise rng.Unsupported('no determined world')
    w, (xs, lw) = got
    a, b = every_key(lambda key: twisted_smc(key, jnp.asarray(y), jnp.asarray(w.ts), w.init, lambda x, p, t: lp(w, x, p, t, jnp),
                                             lambda y_, x, t, **k: psi(w, x, t, jnp), lambda key_, x, t, y_, theta=0.: w.step(x, y_, t, theta, jnp),
                                             lambda x, p, t, y_, **k: lq(w, x, p, t, jnp), lambda ws, key_: MAPS[m](ws, jnp), N, theta=w.theta))
    same(ck, a, xs, 'wide-samples', f'{N} particles, {K} steps, map {m}')
    same(ck, b, lw, 'wide-weights', f'{N} particles, {K} steps, map {m}')
    done(ck, w)


def smoother(ck, bootstrap_backward_smoother, K, N):
    """Transitions that determine the previous particle: the path is the one that leads to its end."""
    w = World(K, N, 3)
    r = np.random.default_rng(8)
    back = r.integers(0, N, (K, N))
    us = r.normal(size=(K + 1, N, *SHAPE))
    us[:, :, 0, 0] = np.arange(N)
    us[:, :, 0, 1] = np.arange(K + 1)[:, None]
    J, T, V = jnp.asarray(back), jnp.asarray(w.ts), jnp.asarray(w.vs)

    def lp(u, uf, v, t, *a, theta=0.):
        k = jnp.argmin(jnp.abs(T - t))
        right = (jnp.abs(v - V[k]).max() < 1e-9) & (jnp.abs(u[0, 1] - k - 1) < 1e-9) & (jnp.abs(uf[0, 0, 1] - k) < 1e-9) & (jnp.abs(theta - w.theta) < 1e-9)
        want = J[k, u[0, 0].astype(int)]
        i = jnp.where(right, want, (want + 1) % N)
        return jnp.where(jnp.arange(N) == i, 0., -900.) + jnp.asarray([-1500., 0., 1200.])[k % 3]  # densities of any scale

    got = every_key(lambda key: bootstrap_backward_smoother(key, jnp.asarray(us), V, T, lp, theta=w.theta))
    want = []
    for u in got:
        i = int(u[-1, 0, 0])
        p = [us[K, i]]
        for k in range(K - 1, -1, -1):
            i = back[k, i]
            p.insert(0, us[k, i])
        want.append(np.stack(p))
    ck.require(np.allclose(got, np.stack(want), atol=1e-9), 'wide-path', f'{N} particles, {K} steps: the path is not the one that leads to its end')
    done(ck, w)


# ---- resampling -----------------------------------------------------------------------------------------------------------------
def weights(N):
    """Integer weights: equal, one only, every second, a ramp, blocks of zeros at either end, one dominating."""
    k = np.arange(N)
    r = np.random.default_rng(N)
    ws = [np.ones(N), k + 1, k + 1 + (k == N // 2), N - k, (k % 2 == 0) * 1, (k % 3) * (k + 1), (k < (N + 1) // 2) * 2, (k >= N // 2) * (k + 1), np.where(k == N // 3, 5 * N, 1),
          r.integers(0, 4, N) + (k == N // 2), (k + 1) * (k < max(1, N - 2))] + [k == h for h in (0, N // 2, N - 1)]
    return [w.astype(int) for w in ws if w.sum() > 0]


def facts(ck, scheme, A, w, what):
    """What holds for every draw; A has one outcome a row."""
    N = len(w)
    p = w / w.sum()
    ck.require(A.shape[1:] == (N,) and A.dtype.kind == 'i', 'wide-shape', f'{what}: {A.dtype} indices of shape {A.shape[1:]}')
    ck.require(((A >= 0) & (A < N)).all(), 'range', f'{what}: indices out of range')
    ck.require((w[A] > 0).all(), 'zero-weight', f'{what}: a particle of weight zero is selected')
    if scheme in ('systematic', 'stratified'):
        counts = np.stack([np.bincount(a, minlength=N) for a in A])
        ck.require((np.diff(A, axis=1) >= 0).all(), 'order', f'{what}: indices are not sorted')
        ck.require((np.abs(np.cumsum(counts - N * p, 1)) < 1 + 1e-9).all(), 'cumulative-counts', f'{what}: cumulative copies differ from N W by more than one')
        if scheme == 'systematic':
            ck.require((np.abs(counts - N * p) < 1 + 1e-9).all(), 'systematic-counts', f'{what}: copies differ from N w by more than one')
    if scheme == 'killing':
        ck.require((A[:, w == w.max()] == np.flatnonzero(w == w.max())).all(), 'uniform-fixed', f'{what}: a particle of the largest weight is moved')
    ck.count(states=len(A), transitions=A.size)


def many(ck, f, scheme, N, cells=True):
    """Every cell of the uniform draw (systematic), one at a time of every stratum (stratified), and extreme draws, with many particles."""
    ws = weights(N)
    P = [jnp.asarray(w / w.sum()) for w in ws]
    every = every_key(lambda key: jax.vmap(lambda p: f(p, key))(jnp.stack(P)))
    noise = None
    for k, (w, p) in enumerate(zip(ws, P)):
        what = f'{scheme}, {N} particles, weights {w.tolist() if N < 40 else "..."}'
        facts(ck, scheme, every[:, k], w, what)
        if scheme not in ('systematic', 'stratified') or not cells:
            continue
        if noise is None:
            noise = Noise(lambda key, p_: f(p_, key), p)
            if noise.nu not in (1, N) or noise.radices or noise.nz:
                raise rng.Unsupported('draws other than the uniforms of the strata')
        S = int(w.sum())
        extreme = [0., 2. ** -53, 2. ** -30, .5, 1 - 2. ** -53]
        u = np.concatenate([(np.arange(S) + .5) / S, extreme, np.full(-(S + 5) % 256, .5)])    # a few lengths only
        A = noise.batch(p, u=np.repeat(u[:, None], noise.nu, 1))[:S + 5]
        facts(ck, scheme, A, w, what)
        A = A[:S]
        lo = np.concatenate([[0.], np.cumsum(w / S)])
        q = np.arange(N + 1) / N
        want = np.maximum(np.minimum(q[1:, None], lo[None, 1:]) - np.maximum(q[:-1, None], lo[None, :-1]), 0.) * N
        got = np.stack([(A == m).mean(0) for m in range(N)], 1)
        ck.close(got, want, 'strata', f'{what}: law of the index of a stratum', tol=1e-9)


def conditions(N):
    r = np.random.default_rng(N)
    for w in weights(N):
        pairs = np.array([(i, j) for i in range(N) for j in range(N) if w[i] > 0])
        if len(pairs) < 40:
            pairs = pairs[np.arange(40) % len(pairs)]
        else:
            pairs = np.concatenate([pairs[:1], pairs[-1:], pairs[r.permutation(len(pairs))[:38]]])
        yield w, pairs


def conditional(ck, f, scheme, N):
    ws, Is, Js = [], [], []
    for w, pairs in conditions(N):
        ws.append(w)
        Is.append(pairs[:, 0])
        Js.append(pairs[:, 1])
    P = jnp.stack([jnp.asarray(w / w.sum()) for w in ws])
    every = every_key(lambda key: jax.vmap(lambda p, I, J: jax.vmap(lambda i, j: f(key, p, i, j, True))(I, J))(P, jnp.asarray(Is), jnp.asarray(Js)))
    plain = every_key(lambda key: jax.vmap(lambda p: f(key, p, conditional=False))(P))
    for k, w in enumerate(ws):
        what = f'{scheme}, {N} particles, weights {w.tolist() if N < 40 else "..."}'
        facts(ck, scheme, plain[:, k], w, what + ', unconditional')
        for n, (i, j) in enumerate(zip(Is[k], Js[k])):
            a = every[:, k, n]
            facts(ck, None, a, w, f'{what}, A[{j}] = {i}')
            ck.require((a[:, j] == i).all(), 'reference-kept', f'{what}: the reference ancestor A[{j}] = {i} is lost')
            if scheme == 'killing' and len(set(w)) == 1:
                ck.require((a == (np.arange(N) + i - j) % N).all(), 'uniform-rotated', f'{what}, A[{j}] = {i}: equal weights leave a rotation only')

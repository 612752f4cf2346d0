"""Twisted SMC: exact proper weighting over every history of draws.

A particle is a vector (value, code of its path, accumulated log constant); the driver functions, which see the whole
population when it is initialised and when it is proposed, let each particle carry the product of the mean unnormalised
incremental weights of the steps before, so that the returned population alone determines the unnormalised estimate."""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from mc import p08, wide
from mc.explore import explore, conformance
from mc.report import Violation
from mc import rng
from fbs.samplers.smc import twisted_smc
from fbs.samplers import resampling as R

SCHEMES = dict(stratified=R.stratified, systematic=R.systematic, killing=R.killing,
               iid=lambda w, key: jax.random.choice(key, w.shape[0], (w.shape[0],), p=w))


class Chain:
    """Two-valued chain with time-dependent transitions p, proposals q and twisting functions psi, found by the time given.

    `lean` makes the weights of every resampling ratios of 1 and 2, so that uniforms on a grid are exact for every scheme."""

    def __init__(self, K, seed, lean, nkw=2):
        r = np.random.default_rng(seed)
        self.K, self.lean = K, lean
        self.ts = np.array([0.2, 0.5, 1.1, 1.3, 2.])[:K + 1]
        self.mu = 0.25
        pr = (0.25, 0.5, 0.75)
        # p[k, xprev] = P(x_k = 1); q and psi also depend on y and on the keyword
        self.p = r.choice(pr, size=(K + 1, 2))
        self.p[:, 1] = np.where(self.p[:, 0] == self.p[:, 1], 1 - self.p[:, 0] / 2, self.p[:, 1])
        self.q = np.zeros((nkw, 2, K + 1, 2))
        self.psi = r.choice((1., 2.) if lean else (0.5, 1., 3.), size=(nkw, 2, K + 1, 2))
        self.psi[:, :, :, 1] = np.where(self.psi[:, :, :, 0] == self.psi[:, :, :, 1], 3 - self.psi[:, :, :, 0] if lean else
                                        self.psi[:, :, :, 0] * 2, self.psi[:, :, :, 1])
        self.q[:] = r.choice(pr, size=self.q.shape)
        if lean:
            self.q[:] = self.p  # bootstrap proposals
        self.shift = np.zeros(K + 1)

    def k(self, t):
        return jnp.argmin(jnp.abs(jnp.asarray(self.ts) - t))

    @staticmethod
    def i(x):
        return jnp.round(x).astype(int)

    # k is the index of the time a step leads to
    def lp(self, x, xp, k):
        p = jnp.asarray(self.p)[k, self.i(xp)]
        return jnp.log(jnp.where(self.i(x) == 1, p, 1 - p))

    def lq(self, x, xp, k, y, kw):
        p = jnp.asarray(self.q)[self.i(kw), self.i(y), k, self.i(xp)]
        return jnp.log(jnp.where(self.i(x) == 1, p, 1 - p))

    def lpsi(self, y, x, t, kw, shifted=True):
        v = jnp.log(jnp.asarray(self.psi)[self.i(kw), self.i(y), self.k(t), self.i(x)])
        return v + jnp.asarray(self.shift)[self.k(t)] if shifted else v

    # ---- what a user passes; the keyword reaches all twisting functions
    def init_sampler(self, y, kw):
        def f(key, n):
            x = jax.random.bernoulli(key, self.mu, (n,)).astype(float)
            lz = jnp.log(jnp.mean(jnp.exp(self.lpsi(y, x, self.ts[0], kw, False))))
            return jnp.stack([x, x + 1., jnp.full((n,), lz)], axis=-1)

        return f

    def transition_logpdf(self, xs, xp, t):
        return self.lp(xs[:, 0], xp[:, 0], self.k(t) + 1)

    def twisting_logpdf(self, y, xs, t, extra=0.):
        return self.lpsi(y, xs[:, 0], t, extra)

    def prop_sampler(self, key, xp, t, y, extra=0.):
        k = self.k(t) + 1
        p = jnp.asarray(self.q)[self.i(extra), self.i(y), k, self.i(xp[:, 0])]
        x = jax.random.bernoulli(key, p, xp.shape[:1]).astype(float)
        tn = jnp.asarray(self.ts)[k]
        lw = (self.lp(x, xp[:, 0], k) + self.lpsi(y, x, tn, extra, False) - self.lq(x, xp[:, 0], k, y, extra)
              - self.lpsi(y, xp[:, 0], t, extra, False))
        lz = jnp.log(jnp.mean(jnp.exp(lw)))
        return jnp.stack([x, 2 * xp[:, 1] + x, xp[:, 2] + lz], axis=-1)

    def prop_logpdf(self, xs, xp, t, y, extra=0.):
        return self.lq(xs[:, 0], xp[:, 0], self.k(t) + 1, y, extra)

    # ---- reference
    def target(self, y, kw):
        """Unnormalised weight of every path, by code (a leading 1 followed by x_0, ..., x_K)."""
        res = {}
        for path in itertools.product((0, 1), repeat=self.K + 1):
            w = self.mu if path[0] else 1 - self.mu
            code = 1 + path[0]
            for k in range(1, self.K + 1):
                p = self.p[k, path[k - 1]]
                w *= p if path[k] else 1 - p
                code = 2 * code + path[k]
            res[code] = w * self.psi[kw, y, self.K, path[-1]]
        return res

    def last(self, code, y, kw):
        """Incremental weight of the last step for path codes."""
        bits = code
        x, xp = bits % 2, (bits // 2 + (1 if self.K == 1 else 0)) % 2
        # the first digit of a path is stored as 1 + x_0, i.e. the parity of code // 2 is that of 1 + x_0 when K = 1
        p, q = self.p[self.K, xp], self.q[kw, y, self.K, xp]
        return (np.where(x == 1, p, 1 - p) * self.psi[kw, y, self.K, x]
                / (np.where(x == 1, q, 1 - q) * self.psi[kw, y, self.K - 1, xp]))


def runner(c, N, res, kwarg):
    def fn(key, y):
        kw = dict(extra=1.) if kwarg else {}
        return twisted_smc(key, y, jnp.asarray(c.ts), c.init_sampler(y, 1. if kwarg else 0.), c.transition_logpdf,
                           c.twisting_logpdf, c.prop_sampler, c.prop_logpdf, SCHEMES[res], N, **kw)

    return fn


def grid_of(res, N, c):
    if res in ('iid',):
        return 2
    if res == 'killing':
        return dict(scalar=4 if c.K > 1 else 2, vector=4 if c.K > 1 else 2)
    sums = range(N, 2 * N + 1)
    if c.K > 1:  # later steps have weights 1/2, 1, 2
        sums = {sum(v) for v in itertools.product((1, 2, 4), repeat=N)}
    fine = int(np.lcm.reduce([s // int(np.gcd(s, N)) for s in sums]))
    return dict(scalar=fine, vector=fine)


def judge(ck, K, N, res, lean, seed, kwarg=True, shift=None, refine=1, budget=1e8):
    c = Chain(K, seed, lean)
    if shift is not None:
        c.shift = np.array(shift)[:K + 1]
    g = grid_of(res, N, c)
    g = {k: n * refine for k, n in g.items()} if isinstance(g, dict) else g
    fn = runner(c, N, res, kwarg)
    ys = np.array([0., 1.])
    law = explore(fn, (ys,), uniform=g, budget=budget)
    ck.count(law)
    xs, lw = law.out
    ck.require(xs.shape[1:] == (N, 3) and lw.shape[1:] == (N,), 'shape', f'outputs of shapes {xs.shape[1:]}, {lw.shape[1:]}')
    ck.close(law.mass(2), np.ones(2), 'mass', 'probabilities add up')
    ck.close(np.exp(lw).sum(1), np.ones(len(lw)), 'normalised', 'the returned weights do not add up to one', tol=1e-9)
    code = np.round(xs[:, :, 1]).astype(int)
    kw = 1 if kwarg else 0
    for a in range(2):
        s = law.init == a
        inc = c.last(code[s], a, kw)
        ck.close(np.exp(lw[s]), inc / inc.sum(1, keepdims=True), 'weights',
                 f'the returned weights are not those of the returned particles (observation {a})', tol=1e-7)
        ck.require((np.ptp(xs[s][:, :, 2], axis=1) < 1e-9).all(), 'carry', 'particles mix populations')
        tgt = c.target(a, kw)
        Z = np.exp(xs[s][:, 0, 2])
        W = np.exp(lw[s])
        est = {}
        for path, want in tgt.items():
            f = (W * (code[s] == path)).sum(1)
            est[path] = float((law.w[s] * Z * f).sum())
        ck.require(set(np.unique(code[s])) <= set(tgt), 'support', 'a returned particle is not a path of the chain')
        Zt = sum(tgt.values())
        ck.close(sum(est.values()), Zt, 'constant', f'the normalising constant is estimated with bias (observation {a})', tol=1e-9)
        ck.close([est[k] for k in tgt], list(tgt.values()), 'target', f'the path law is estimated with bias (observation {a})', tol=1e-9)
    ck.sample(steps=K, particles=N, resampling=res, histories=len(law.w), constant=sum(est.values()), exact=Zt)
    if res in ('iid', 'killing') and shift is None:
        try:
            ck.count(traces=conformance(fn, (ys,), law, 40, 2, decimals=7))
        except AssertionError as e:
            raise Violation('conformance', str(e))


def config(ck, name, *a, **kw):
    def go():
        try:
            judge(ck, *a, **kw)
        except Violation as v:
            if v.sig not in ('constant', 'target') or a[2] == 'iid':
                raise
            try:
                judge(ck, *a, **dict(kw, refine=3, budget=1e9))
            except rng.BudgetExceeded:
                raise v
            print(f'note: {name}: exact on the refined grid only')

    ck.case(name, go)


def run(ck):
    for seed in range(3 if not ck.thorough else 12):
        for K, N in ((1, 1), (1, 2), (1, 3), (1, 4), (2, 1), (2, 2), (2, 3), (3, 2)):
            if K * N > 6 and not ck.thorough and seed:
                continue
            config(ck, f'iid-K{K}-N{N}-{seed}', K, N, 'iid', False, seed)
        for res in ('stratified', 'systematic', 'killing'):
            for K, N in ((1, 2), (1, 3), (2, 2)):
                if res == 'stratified' and N == 3 and seed and not ck.thorough:
                    continue
                config(ck, f'{res}-K{K}-N{N}-{seed}', K, N, res, True, seed)
        config(ck, f'default-keywords-{seed}', 2, 2, 'iid', False, seed, kwarg=False)
    for j, sh in enumerate(((-900., -900., -900., -900.), (0., 800., -750., 3.), (-1000., 5., 900., -900.))):
        config(ck, f'shifted-{j}', 2, 2, 'iid', False, 1, shift=sh)
        config(ck, f'shifted3-{j}', 1, 3, 'iid', False, 2, shift=sh)
    if ck.thorough:
        for seed in range(4):
            config(ck, f'iid-K3-N3-{seed}', 3, 3, 'iid', False, seed, budget=1e9)
            config(ck, f'iid-K4-N2-{seed}', 4, 2, 'iid', False, seed)
            config(ck, f'systematic-K2-N3-{seed}', 2, 3, 'systematic', True, seed, budget=2e9)
            config(ck, f'killing-K2-N3-{seed}', 2, 3, 'killing', True, seed, budget=1e9)
    for N, K in wide.SIZES:
        for m in wide.MAPS:
            ck.case(f'wide-{N}-{K}-{m}', wide.twisted, ck, twisted_smc, K, N, m)
    p08.keys(ck, 'twisted')
    ck.bound('up to 33 particles and 20 steps in runs in which every random choice has one outcome (mc/wide.py)')
    ck.bound('two-valued chains of 1 to 3 steps with 1 to 4 particles, three random models each, four resampling schemes, both '
             'observations, log twisting values shifted by up to 1000')
    ck.assume('transitions and proposals are given the time their step starts from, twisting functions the time of the particles; uniform draws of stratified and systematic '
              'resampling are explored on a grid exact for the weights of the model')

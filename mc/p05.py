"""Particle marginal Metropolis-Hastings: the full transition matrix on the extended state leaves the target invariant."""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from mc import p08, wide
from mc.explore import explore, conformance, SIGNS, GH3
from mc.models import Hmm
from mc.report import Violation
from mc import rng
from fbs.samplers.smc import pmcmc_kernel, pcn_proposal, pmcmc_filter_step
from fbs.samplers import resampling as R
from fbs.sdes.linear import StationaryLinLinearSDE, make_linear_sde

SCHEMES = dict(stratified=R.stratified, systematic=R.systematic, killing=R.killing,
               iid=lambda w, key: jax.random.choice(key, w.shape[0], (w.shape[0],), p=w))
VEC = dict(stratified=4, systematic=4, killing=3, iid=2)


class Model(Hmm):
    """Observations path: y_0 given, y_k a Markov chain; the filter runs on its reversal."""

    def __init__(self, K, seed):
        super().__init__(K, seed=seed, liks=(1., 3.))
        self.C = np.random.default_rng(seed + 50).choice([0.25, 0.5], size=(K + 1, 2))

    def fwd_ys(self, key, y0):
        keys = jax.random.split(key, self.K)
        ys = [y0]
        for k in range(self.K):
            p = jnp.asarray(self.C)[k, jnp.round(ys[-1][0]).astype(int)]
            ys.append(jax.random.bernoulli(keys[k], p, (1,)).astype(float))
        return jnp.stack(ys)

    def p_ys(self, y):
        p = 1.
        for k in range(self.K):
            a = self.C[k, y[k]]
            p *= a if y[k + 1] else 1 - a
        return p


def kernel(m, N, res, which, delta=None, shift=0.):
    def lik(*a, **k):
        return m.lik_logpdf(*a, **k) + shift

    def fn(key, uT, ell, ys, y0):
        kw = {} if which == 0 else dict(which_u=which)
        return pmcmc_kernel(key, uT, ell, ys, y0, jnp.asarray(m.ts), m.fwd_ys, None, m.init_sampler,
                            m.transition_sampler, lik if shift else m.lik_logpdf, SCHEMES[res], N, delta=delta, theta=m.theta, **kw)

    return fn


def ukey(m, u, ys):
    return m.code(u) * (2 ** (m.K + 1)) + np.round(np.asarray(ys)[..., 0]).astype(int) @ (2 ** np.arange(m.K, -1, -1))


def judge(ck, K, N, res, which, seed, scalar=36, budget=1e8, full=True, refine=1, shift=0.):
    m = Model(K, seed)
    fn = kernel(m, N, res, which, shift=shift)
    y0 = np.array([[0.], [1.]])
    dummy = dict(u=m.emb(np.zeros(2, int)), ys=np.zeros((2, K + 1, 1)))
    g = dict(scalar=scalar * refine, vector=VEC[res] * refine)
    q = explore(fn, (dummy['u'], np.full(2, -np.inf), dummy['ys'], y0), uniform=g, budget=budget)
    ck.count(q)
    uT, ell, ys, st = q.out
    ck.close(q.mass(2), np.ones(2), 'mass', 'probabilities add up')
    ck.require(bool(np.asarray(st.is_accepted)[q.w > 0].all()), 'first-move',
               'a chain started at zero likelihood always accepts its first proposal')
    ck.require(uT.shape[1:] == (2,) and ys.shape[1:] == (K + 1, 1) and ell.shape[1:] == (), 'shape', 'output shapes')
    ck.require((m.code(uT) >= 0).all(), 'support', 'states are model states')
    cu = m.code(uT)
    cy = np.round(ys[..., 0]).astype(int)
    off, tol = K * shift, 1e-9 if not shift else 1e-6
    # (2) unbiasedness of the extended target's marginal
    for a in range(2):
        sel = q.init == a
        for y in m.paths:
            if y[0] != a:
                continue
            w = m.joint(y[::-1], with_init_lik=False, mu_given_v=True) * m.p_ys(y)
            on = sel & (cy == y).all(1)
            got = np.bincount(cu[on], weights=q.w[on] * np.exp(ell[on] - off), minlength=2)
            want = np.array([w[m.paths[:, -1] == b].sum() for b in range(2)])
            ck.close(got, want, 'marginal', f'the likelihood-weighted proposal law of (state, observations {y.tolist()}) is '
                     f'not the target (particle {which})', tol=tol, observations=y, which=which, got_law=got, exact=want)
    ck.sample(K=K, particles=N, resampling=res, which=which, extended_states=len(q.w), target=want)
    if not full:
        return
    # (1) the transition matrix over the extended states
    ellr = np.round(ell, 10 if not shift else 7)
    states = {}
    for r in range(len(q.w)):
        if q.w[r] <= 0:
            continue
        k = (int(q.init[r]), int(cu[r]), tuple(cy[r].tolist()), float(ellr[r]))
        states[k] = states.get(k, 0.) + q.w[r]
    keys = sorted(states)
    pi = np.array([states[k] * np.exp(k[3] - off) for k in keys])
    us = m.emb(np.array([k[1] for k in keys]))
    el = np.array([k[3] for k in keys])
    yy = np.array([k[2] for k in keys], float)[..., None]
    law = explore(fn, (us, el, yy, yy[:, 0]), uniform=g, budget=budget * 10)
    ck.count(law)
    nb = len(keys)
    ck.close(law.mass(nb), np.ones(nb), 'mass', 'probabilities add up')
    o_u, o_l, o_y, o_s = law.out
    c_u, c_y, c_l = m.code(o_u), np.round(o_y[..., 0]).astype(int), np.round(o_l, 10 if not shift else 7)
    number = {k: i for i, k in enumerate(keys)}
    P = np.zeros((nb, nb))
    for r in range(len(law.w)):
        if law.w[r] <= 0:
            continue
        i = law.init[r]
        k = (keys[i][0], int(c_u[r]), tuple(c_y[r].tolist()), float(c_l[r]))
        if k not in number:
            raise Violation('state-space', f'the kernel moves from {keys[i]} to {k}, which no proposal produces')
        P[i, number[k]] += law.w[r]
    for a in range(2):
        on = np.array([k[0] == a for k in keys])
        t = pi[on] / pi[on].sum()
        ck.close(t @ P[np.ix_(on, on)], t, 'invariance', 'the extended target is not invariant', tol=tol,
                 matrix=P[np.ix_(on, on)] if on.sum() < 30 else None)
        flow = t[:, None] * P[np.ix_(on, on)]
        ck.close(flow, flow.T, 'reversible', 'detailed balance fails', tol=tol)
    # bookkeeping on every transition
    pos = law.w > 0
    acc = np.asarray(o_s.is_accepted)
    cur = el[law.init]
    want_p = np.exp(np.minimum(0., o_s.prop_log_ell - cur))
    ck.close(np.asarray(o_s.acceptance_prob)[pos], want_p[pos], 'acceptance-prob', 'reported acceptance probability', tol=tol)
    ck.close(np.asarray(o_s.log_ell)[pos], cur[pos], 'state-log-ell', 'reported current log-likelihood', tol=tol)
    ck.close(np.where(acc, o_l - o_s.prop_log_ell, 0.)[pos], np.zeros(pos.sum()), 'accepted-log-ell',
             'an accepted move carries the log-likelihood of its proposal', tol=tol)
    rej = pos & ~acc
    ck.require((o_u[rej] == us[law.init[rej]]).all() and (o_y[rej] == yy[law.init[rej]]).all()
               and (np.abs(o_l[rej] - cur[rej]) < 1e-12 * (1 + abs(off))).all(), 'rejected', 'a rejected move keeps the whole state')
    pa = law.expect(acc.astype(float), nb)
    ma = law.expect(np.asarray(o_s.acceptance_prob), nb)
    ck.close(pa, ma, 'acceptance-rate', 'moves are accepted with the reported probability', tol=tol)
    try:
        ck.count(traces=conformance(fn, (us, el, yy, yy[:, 0]), law, 20, nb, rows=np.arange(0, nb, max(1, nb // 16))))
    except AssertionError as e:
        raise Violation('conformance', str(e))


def config(ck, name, *a, **kw):
    def go():
        try:
            judge(ck, *a, **kw)
        except Violation as v:
            if v.sig not in ('marginal', 'invariance', 'reversible', 'acceptance-rate'):
                raise
            try:
                judge(ck, *a, **dict(kw, refine=2, budget=1e9))
            except rng.BudgetExceeded:
                raise v
            print(f'note: {name}: exact on the refined grid only')

    ck.case(name, go)


# ---- preconditioned Crank-Nicolson -----------------------------------------------------------------------------------
def pcn(ck, delta, d):
    """(x, proposal) is exchangeable when x follows the Gaussian reference of the sampler: every outcome is affine in
    the three noises, with equal marginal covariances and a symmetric cross covariance."""
    A = np.array([[1., 0.], [-0.7, 0.5]])[:d, :d]
    mean = np.array([0.4, -2.])[:d]

    def sampler(key):
        return jnp.asarray(mean) + jnp.asarray(A) @ jax.random.normal(key, (d,))

    z0 = np.array(list(itertools.product([-1., 1.], repeat=d)) + [[0.] * d])
    x = mean + z0 @ A.T
    law = explore(lambda key, x_: pcn_proposal(key, delta, x_, jnp.asarray(mean), sampler), (x,), normal=GH3,
                  budget=1e7)
    ck.count(law)
    nb = len(x)
    ck.require(law.out.shape[1:] == (d,), 'shape', 'proposal shape')
    beta = 2 / (2 + delta)
    m1 = law.expect(law.out, nb)
    ck.close(m1, mean + beta * (x - mean), 'pcn-mean', f'conditional mean (delta = {delta})', tol=1e-8)
    dev = law.out - m1[law.init]
    C = law.expect(dev[:, :, None] * dev[:, None, :], nb)
    S = A @ A.T
    ck.close(C, np.repeat(((1 - beta ** 2) * S)[None], nb, 0), 'pcn-cov', f'conditional covariance (delta = {delta})', tol=1e-8)
    third = law.expect(dev ** 3, nb)
    ck.close(third, np.zeros_like(third), 'pcn-symmetry', 'symmetric noise', tol=1e-8)
    four = law.expect(dev ** 4, nb)
    # two Gaussian terms with GH3 (kurtosis exact per normal): E dev^4 = 3 var^2
    ck.close(four, 3 * np.repeat(np.diag((1 - beta ** 2) * S)[None] ** 2, nb, 0), 'pcn-gaussian', 'Gaussian noise', tol=1e-8)
    ck.sample(delta=delta, dimension=d, mean=m1[0], cov=C[0])


def pcn_kernel(ck, delta, K, d, nonconst):
    """The kernel with a pCN proposal, on a real linear SDE: with a flat likelihood the law of the path is preserved."""
    sde = StationaryLinLinearSDE(0.3, 1.7, 0.25, 2.5)
    ts = np.array([0.25, 0.8, 2.5])[:K + 1]
    _, _, sim = make_linear_sde(sde)
    y0 = np.array([0.8, -1.1])[:d]

    def fwd(key, y):
        return sim(key, y, jnp.asarray(ts))

    def fn(key, y):
        k1, k2 = jax.random.split(jax.random.fold_in(key, 7))
        ys = fwd(k1, y)
        lik = lambda v, us, vp, t: (jnp.sum(v) - jnp.sum(vp)) * nonconst * jnp.ones(us.shape[0])
        out = pmcmc_kernel(k2, jnp.zeros((1,)), 0., ys, y, jnp.asarray(ts), fwd, sde,
                           lambda k, v, n: jnp.zeros((n, 1)), lambda us, v, t, k: us + 1., lik,
                           lambda w, k: jnp.arange(w.shape[0]), 2, delta=delta)
        return ys, out

    law = explore(fn, (y0[None],), normal=SIGNS if K * d > 2 else GH3, uniform=1, budget=1e8)
    ck.count(law)
    ys, (uT, ell, nys, st) = law.out
    ck.close(law.mass(1), np.ones(1), 'mass', 'probabilities add up')
    if nonconst:
        # acceptance bookkeeping only
        pos = law.w > 0
        ck.close(np.asarray(st.acceptance_prob)[pos], np.exp(np.minimum(0., np.asarray(st.prop_log_ell)[pos])),
                 'acceptance-prob', 'reported acceptance probability', tol=1e-9)
        prop_path = np.where(np.asarray(st.is_accepted)[:, None, None], nys, np.nan)
        tot = (y0.sum() - prop_path[:, -1].sum(-1)) * nonconst
        acc = pos & np.asarray(st.is_accepted)
        ck.close(np.asarray(ell)[acc], tot[acc], 'accepted-log-ell',
                 'the filter reads the proposed path backwards in time', tol=1e-8)
        return
    ck.require(bool(np.asarray(st.is_accepted).all()), 'accept', 'flat likelihoods are always accepted')
    ck.close(ell, np.zeros_like(ell), 'log-ell', 'flat likelihood', tol=1e-12)
    for mom, name in ((lambda p: p, 'mean'), (lambda p: p.reshape(len(p), -1)[:, :, None] * p.reshape(len(p), -1)[:, None, :],
                                            'second moment')):
        ck.close(law.expect(mom(nys), 1), law.expect(mom(ys), 1), 'pcn-path', f'{name} of the path is preserved', tol=1e-8)
    ck.close(nys[:, 0], np.repeat(y0[None], len(nys), 0), 'pcn-start', 'the path starts at the observation', tol=1e-9)
    ck.close(uT, np.full_like(uT, K), 'steps', 'number of filter steps', tol=0)


def run(ck):
    T = ck.thorough
    for res in SCHEMES:
        for seed in ((0, 1) if not T else range(4)):
            config(ck, f'K1-N2-{res}-model{seed}', K=1, N=2, res=res, which=0, seed=seed)
            config(ck, f'K2-N2-{res}-model{seed}', K=2, N=2, res=res, which=seed % 2, seed=seed)
        config(ck, f'K1-N1-{res}', K=1, N=1, res=res, which=0, seed=3)
        for which in (0, 1, 2):
            if res == 'systematic' or res == 'iid' or T:
                config(ck, f'K1-N3-{res}-u{which}', K=1, N=3, res=res, which=which, seed=2, scalar=12 * 5 * 7, full=False)
        for c in (1e3, -1e3):
            config(ck, f'K2-N2-{res}-scale{c:g}', K=2, N=2, res=res, which=0, seed=1, shift=c, full=False)
            config(ck, f'K1-N2-{res}-scale{c:g}', K=1, N=2, res=res, which=0, seed=0, shift=c)
        if T:
            config(ck, f'K3-N2-{res}', K=3, N=2, res=res, which=1, seed=2, scalar=27 * 8, budget=4e8)
    for delta in (0.05, 0.5, 2., 10.):
        for d in (1, 2):
            ck.case(f'pcn-{delta}-d{d}', pcn, ck, delta, d)
        ck.case(f'pcn-kernel-{delta}', pcn_kernel, ck, delta, 2, 1, 0.)
        ck.case(f'pcn-kernel-lik-{delta}', pcn_kernel, ck, delta, 2, 1, 0.5)
    ck.case('pcn-kernel-d2', pcn_kernel, ck, 0.5, 1, 2, 0.)
    for N, K in wide.SIZES:
        for m in wide.MAPS:
            ck.case(f'wide-{N}-{K}-{m}', wide.pmcmc, ck, pmcmc_kernel, K, N, m)
    p08.keys(ck, 'pmcmc-', 'pcn')
    ck.bound('up to 33 particles and 20 steps in runs in which every random choice has one outcome (mc/wide.py)')
    ck.bound('K <= 2 steps (thorough: 3), N <= 3 particles, 2-valued states and observations, four resampling schemes, '
             'every particle index')
    ck.assume('the continuous pCN proposal is decided through its first four moments (it is affine in Gaussian noise)')

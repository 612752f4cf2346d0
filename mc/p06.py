"""Bootstrap particle filter: exactly unbiased likelihood and filtering estimates, for every history of draws."""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from mc import p08, wide
from mc.explore import explore, conformance
from mc.models import Hmm
from mc.report import Violation
from mc import rng
from fbs.samplers.smc import bootstrap_filter, bootstrap_backward_smoother
from fbs.samplers import resampling as R

SCHEMES = dict(stratified=R.stratified, systematic=R.systematic, killing=R.killing,
               iid=lambda w, key: jax.random.choice(key, w.shape[0], (w.shape[0],), p=w))


def runner(m, N, res, log=True, return_last=True, shift=0., steps=None):
    def pdf(v, us, v_prev, t, **kw):
        lp = m.lik_logpdf(v, us, v_prev, t, **kw) + shift
        return lp if log else jnp.exp(lp)

    def fn(key, vs):
        ts = jnp.asarray(m.ts)
        if steps is not None:
            vs, ts = vs[:steps + 1], ts[:steps + 1]
        kw = {} if log is True and return_last is True else dict(log=log, return_last=return_last)
        return bootstrap_filter(m.transition_sampler, pdf, vs, ts, m.init_sampler, key, N, SCHEMES[res],
                                theta=m.theta, **kw)

    return fn


def grid_of(res, N):
    # weights are ratios of 1 and 2: cumulative weights times N have denominators 2..2N
    if res == 'killing':
        return dict(scalar=2, vector=2)
    if res == 'iid':
        return 2
    fine = int(np.lcm.reduce(np.arange(N, 2 * N + 1)))
    return dict(scalar=fine, vector=fine)


def moments(m, v, steps=None):
    """Z and sum of the joint weight by terminal state, for observations v."""
    w = m.joint(v, with_init_lik=False, mu_given_v=True)
    return w.sum(), np.array([w[m.paths[:, -1] == a].sum() for a in range(2)])


def judge(ck, K, N, res, log, vsel, seed, shift=0., budget=1e8, refine=1):
    m = Hmm(K, seed=seed)
    V = m.vpaths[list(vsel)]
    vs = np.stack([m.embv(v) for v in V])
    g = grid_of(res, N)
    g = {k: n * refine for k, n in g.items()} if isinstance(g, dict) else g * refine
    fn = runner(m, N, res, log=log, shift=shift)
    law = explore(fn, (vs,), uniform=g, budget=budget)
    nb = len(V)
    ck.count(law)
    us, nell = law.out
    ck.require(us.shape[1:] == (N, 2) and nell.shape[1:] == (), 'shape', f'output shapes {us.shape[1:]}, {nell.shape[1:]}')
    ck.close(law.mass(nb), np.ones(nb), 'mass', 'probabilities add up')
    code = m.code(us)
    ck.require((code >= 0).all(), 'support', 'particles are model states')
    lik = np.exp(-(nell + K * shift))
    mean = law.expect(lik, nb)
    per = law.expect(np.stack([lik * (code == a).mean(1) for a in range(2)], -1), nb)
    each = law.expect(np.stack([lik * (code[:, i] == 1) for i in range(N)], -1), nb)
    for a, v in enumerate(V):
        Z, F = moments(m, v)
        tol = 1e-9 if shift == 0 else 1e-6
        ck.close(mean[a], Z, 'likelihood', f'the likelihood estimate is biased (observations {v.tolist()})', tol=tol,
                 observations=v, got_mean=mean[a], exact=Z)
        ck.close(per[a], F, 'filtering', f'the filtering estimate is biased (observations {v.tolist()})', tol=tol,
                 observations=v, got_mean=per[a], exact=F)
        if res in ('iid',):
            ck.close(each[a], np.full(N, F[1]), 'each', 'every particle targets the filtering law', tol=tol)
    ck.sample(K=K, particles=N, resampling=res, log=log, shift=shift, histories=len(law.w), observations=V[0],
              mean_likelihood=mean[0], exact=moments(m, V[0])[0])
    if shift == 0:
        try:
            if res in ('killing', 'iid'):
                ck.count(traces=conformance(fn, (vs,), law, 50, nb))
        except AssertionError as e:
            raise Violation('conformance', str(e))
    return law


def config(ck, name, *a, **kw):
    def go():
        try:
            judge(ck, *a, **kw)
        except Violation as v:
            if v.sig not in ('likelihood', 'filtering', 'each'):
                raise
            try:
                judge(ck, *a, **dict(kw, refine=3, budget=1e9))
            except rng.BudgetExceeded:
                raise v
            print(f'note: {name}: exact on the refined grid only')

    ck.case(name, go)


def history(ck, K, N, res, seed):
    """The returned history: its last slice is what is returned otherwise, and every prefix has the law of the shorter run."""
    m = Hmm(K, seed=seed)
    V = m.vpaths[[1, len(m.vpaths) - 2]]
    vs = np.stack([m.embv(v) for v in V])
    nb = len(V)
    g = grid_of(res, N)

    def both(key, vs_):
        a = runner(m, N, res, return_last=True)(key, vs_)
        b = runner(m, N, res, return_last=False)(key, vs_)
        return a, b

    law = explore(both, (vs,), uniform=g, budget=2e8)
    ck.count(law)
    (us, n1), (uss, n2) = law.out
    pos = law.w > 0
    ck.require(uss.shape[1:] == (K + 1, N, 2), 'shape', f'history shape {uss.shape[1:]}')
    ck.require((uss[:, -1] == us)[pos].all() and (n1 == n2)[pos].all(), 'return-last',
               'the last slice of the history differs from the returned last samples')

    def table(code, w, init):
        d = {}
        for i, c, p in zip(init, code, w):
            k = (int(i),) + tuple(c.ravel().tolist())
            d[k] = d.get(k, 0.) + p
        return d

    full = m.code(uss)
    for s in range(1, K):
        short = explore(runner(m, N, res, return_last=False, steps=s), (vs,), uniform=g, budget=2e8)
        ck.count(short)
        a = table(full[:, :s + 1], law.w, law.init)
        b = table(m.code(short.out[0]), short.w, short.init)
        for k in set(a) | set(b):
            ck.close(a.get(k, 0.), b.get(k, 0.), 'prefix', f'the first {s} steps of the history do not have the law of a '
                     f'run of {s} steps', tol=1e-9, history=k)
    # particles start from the initial sampler: every initial slot is a draw from p(u_0 | v_0)
    for a, v in enumerate(V):
        p1 = np.array([(law.w * (law.init == a) * (full[:, 0, i] == 1)).sum() for i in range(N)])
        ck.close(p1, np.full(N, m.mu[v[0]]), 'initial', 'initial particles', tol=1e-9)


def run(ck):
    T = ck.thorough
    for res in SCHEMES:
        for seed in ((0, 1) if not T else range(6)):
            config(ck, f'K1-N2-{res}-model{seed}', K=1, N=2, res=res, log=True, vsel=range(4), seed=seed)
            config(ck, f'K2-N2-{res}-model{seed}', K=2, N=2, res=res, log=True, vsel=range(8), seed=seed)
            config(ck, f'K3-N2-{res}-model{seed}', K=3, N=2, res=res, log=True, vsel=range(16), seed=seed)
        config(ck, f'K1-N1-{res}', K=1, N=1, res=res, log=True, vsel=range(4), seed=2)
        if res not in ('stratified',):
            config(ck, f'K1-N3-{res}', K=1, N=3, res=res, log=True, vsel=range(4), seed=2)
            config(ck, f'K2-N3-{res}', K=2, N=3, res=res, log=True, vsel=range(8), seed=2, budget=3e8)
        config(ck, f'K2-N2-{res}-pdf', K=2, N=2, res=res, log=False, vsel=range(8), seed=3)
        config(ck, f'K2-N2-{res}-logpdf', K=2, N=2, res=res, log=True, vsel=range(8), seed=3)
        for c in (1e3, -1e3, 1e5):
            config(ck, f'K2-N2-{res}-scale{c:g}', K=2, N=2, res=res, log=True, vsel=[3, 5], seed=0, shift=c)
        for c in (-60., 200.):
            config(ck, f'K2-N2-{res}-pdf-scale{c:g}', K=2, N=2, res=res, log=False, vsel=[3, 5], seed=0, shift=c)
        ck.case(f'history-{res}', history, ck, 2, 2, res, 1)
        if T:
            config(ck, f'K4-N2-{res}', K=4, N=2, res=res, log=True, vsel=range(32), seed=4, budget=1e9)
            config(ck, f'K5-N2-{res}', K=5, N=2, res=res, log=True, vsel=range(64), seed=5, budget=1e9)
            ck.case(f'history3-{res}', history, ck, 3, 2, res, 1)
    for N, K in wide.SIZES:
        for m in wide.MAPS:
            ck.case(f'wide-{N}-{K}-{m}', wide.filters, ck, bootstrap_filter, K, N, m)
    p08.keys(ck, 'filter-')
    ck.bound('up to 33 particles and 20 steps in runs in which every random choice has one outcome (mc/wide.py)')
    ck.bound('K <= 3 steps (thorough: 5), N <= 3 particles, 2-valued states and observations, all observation sequences, '
             'four resampling schemes, log weights shifted by up to 1e5')
    ck.assume('model probabilities are quarters and likelihoods 1 or 2, so that the finite uniform grids are exact')

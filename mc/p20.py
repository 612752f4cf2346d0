"""Backward particle smoothing and the initialisation of the Gibbs sampler: exact laws."""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from mc import p08, wide
from mc.explore import explore, conformance, SIGNS
from mc.models import Hmm, Joint
from mc.report import Violation
from fbs.samplers.smc import bootstrap_backward_smoother, bootstrap_filter
from fbs.samplers.gibbs import gibbs_init
from fbs.samplers.resampling import stratified


def trans_prob(m, k, v_prev, u_prev, u):
    p = m.T[1, k, v_prev, u_prev]
    return p if u else 1 - p


def reference(m, F, v, lik=False):
    """Exact law over the paths given filter particles F (K+1, N) (codes) and observations v."""
    K = m.K
    law = np.zeros(len(m.paths))
    for i, path in enumerate(m.paths):
        p = np.mean(F[K] == path[K])
        for k in range(K - 1, -1, -1):
            if p == 0:
                break
            w = np.array([trans_prob(m, k + 1, v[k], a, path[k + 1])
                          * (m.L[1, k + 1, v[k], a, v[k + 1]] if lik else 1.) for a in F[k]])
            p *= w[F[k] == path[k]].sum() / w.sum()
        law[i] = p
    return law


def smoother_fn(m):
    def fn(key, uf, vs):
        return bootstrap_backward_smoother(key, uf, vs, jnp.asarray(m.ts), m.transition_logpdf, theta=m.theta)

    return fn


def smoother(ck, K, N, seed, vsel):
    m = Hmm(K, seed=seed)
    V = m.vpaths[list(vsel)]
    Fs = np.array(list(itertools.product([0, 1], repeat=(K + 1) * N))).reshape(-1, K + 1, N)
    combos = [(a, b) for a in range(len(V)) for b in range(len(Fs))]
    uf = np.stack([m.emb(Fs[b]) for _, b in combos])
    vs = np.stack([m.embv(V[a]) for a, _ in combos])
    fn = smoother_fn(m)
    law = explore(fn, (uf, vs), uniform=2, budget=2e8)
    nb = len(combos)
    ck.count(law)
    ck.require(law.out.shape[1:] == (K + 1, 2), 'shape', f'trajectory shape {law.out.shape[1:]}')
    ck.close(law.mass(nb), np.ones(nb), 'mass', 'probabilities add up')
    code = m.code(law.out)
    ck.require((code >= 0).all(), 'support', 'trajectories pass through the particles')
    ix = m.index(code)
    got = np.zeros((nb, len(m.paths)))
    np.add.at(got, (law.init, ix), law.w)
    for r, (a, b) in enumerate(combos):
        ck.close(got[r], reference(m, Fs[b], V[a]), 'law', f'law of the smoothing trajectory (particles {Fs[b].tolist()}, '
                 f'observations {V[a].tolist()})', tol=1e-9, particles=Fs[b], observations=V[a])
    ck.sample(K=K, particles=N, filter_particles=Fs[1], observations=V[-1], law=got[-1])
    try:
        ck.count(traces=conformance(fn, (uf, vs), law, 10, nb, rows=np.arange(0, nb, max(1, nb // 64))))
    except AssertionError as e:
        raise Violation('conformance', str(e))


def consistency(ck, seed):
    """Feed particles that represent the filtering laws exactly: the output should follow the smoothing law."""
    K = 2
    m = Hmm(K, seed=seed, liks=(1., 3.))
    for v in m.vpaths[[1, 2, 5, 6]]:
        w = m.joint(v, with_init_lik=False, mu_given_v=True)
        post = w / w.sum()
        filt = []
        for k in range(K + 1):
            # p(u_k | v_{0:k}): the likelihood of v_j depends on u_{j-1}
            q = np.zeros(2)
            for path in itertools.product([0, 1], repeat=k + 1):
                p = m.mu[v[0]] if path[0] else 1 - m.mu[v[0]]
                for j in range(1, k + 1):
                    p *= trans_prob(m, j, v[j - 1], path[j - 1], path[j]) * m.L[1, j, v[j - 1], path[j - 1], v[j]]
                q[path[-1]] += p
            filt.append(q[1] / q.sum())
        # a particle population with these frequencies: common denominator
        from fractions import Fraction
        fr = [Fraction(float(p)).limit_denominator(2000) for p in filt]
        n = int(np.lcm.reduce([f.denominator for f in fr]))
        if n > 300:
            continue
        F = np.array([[1] * int(f * n) + [0] * (n - int(f * n)) for f in fr])
        law = explore(smoother_fn(m), (m.emb(F)[None], m.embv(v)[None]), uniform=2, budget=6e8)
        ck.count(law)
        got = np.bincount(m.index(m.code(law.out)), weights=law.w, minlength=len(m.paths))
        want = reference(m, F, v, lik=True)
        ck.close(want, post, 'oracle', 'the reference is the exact smoothing law', tol=1e-6)
        plain = reference(m, F, v, lik=False)
        if np.abs(got - want).max() > 1e-6 and np.abs(got - plain).max() < 1e-9:
            raise Violation('no-measurement-factor', f'with particles that represent the filtering laws exactly, the law of '
                            f'the trajectory is off the smoothing law by up to {np.abs(got - want).max():.3f} '
                            f'(observations {v.tolist()})', got=got, want=want)
        ck.close(got, want, 'smoothing-law', f'not the smoothing law (observations {v.tolist()})', tol=1e-6)


def init_law(ck, K, N, method, x0given, seed):
    m = Joint(K, seed=seed)
    ts = jnp.asarray(m.ts)
    y0 = np.array([[1.], [-1.]])
    x0 = np.array([[-1.], [-1.]])

    def real(key, y, x):
        kw = dict(x0=x) if x0given else {}
        # without an initial x0 the sampler starts the forward path at zero; our sampler reads that as -1
        a, b = gibbs_init(key, y, (1,), ts, m.fwd_sampler, None, m.unpack, m.transition_sampler, m.transition_logpdf,
                          m.lik_logpdf, N, method=method, marg_y=False, theta=m.theta, **kw)
        return (a, b) if b is not None else (a, jnp.zeros(()))

    def ref(key, y, x):
        k = jax.random.split(key, 5)
        vs = m.fwd_sampler(k[0], x, y, theta=m.theta)[::-1, ..., 1:]
        init = lambda *_: jax.random.normal(k[1], (N, 1))
        out = bootstrap_filter(m.transition_sampler, m.lik_logpdf, vs, ts, init, k[2], N, stratified, log=True,
                               return_last=False, theta=m.theta)[0]
        if method == 'debug':
            return out, jnp.zeros(())
        if method == 'filter':
            x_ = jax.random.choice(k[4], out[-1], axis=0)
            return x_, m.fwd_sampler(k[3], x_, y, theta=m.theta)[::-1, ..., :1]
        path = bootstrap_backward_smoother(k[4], out, vs, ts, m.transition_logpdf, theta=m.theta)
        return path[-1], path

    tabs = []
    g = dict(scalar=4, vector=4)
    for f in (real, ref):
        law = explore(f, (y0, x0), uniform=g, normal=SIGNS, budget=3e8)
        ck.count(law)
        ck.close(law.mass(2), np.ones(2), 'mass', 'probabilities add up')
        d = {}
        for r in range(len(law.w)):
            k = (int(law.init[r]),) + tuple(tuple(np.asarray(l[r]).ravel().tolist()) for l in law.leaves)
            d[k] = d.get(k, 0.) + law.w[r]
        tabs.append(d)
    a, b = tabs
    for k in set(a) | set(b):
        ck.close(a.get(k, 0.), b.get(k, 0.), 'law', f'law of the initial state and path ({method})', tol=1e-9, outcome=k)
    ck.sample(method=method, K=K, particles=N, outcomes=len(a))


def run(ck):
    for seed in ((0, 1) if not ck.thorough else range(6)):
        ck.case(f'smoother-K1-N2-model{seed}', smoother, ck, 1, 2, seed, range(4))
        ck.case(f'smoother-K2-N2-model{seed}', smoother, ck, 2, 2, seed, range(8))
        ck.case(f'smoother-K1-N3-model{seed}', smoother, ck, 1, 3, seed, range(4))
    ck.case('smoother-K3-N2', smoother, ck, 3, 2, 2, [3, 9])
    if ck.thorough:
        ck.case('smoother-K2-N3', smoother, ck, 2, 3, 2, range(8))
        ck.case('smoother-K4-N2', smoother, ck, 4, 2, 2, [3, 9])
    for s in (0, 1):
        ck.case(f'consistency-{s}', consistency, ck, s)
    for method in ('filter', 'smoother', 'debug'):
        ck.case(f'init-{method}-x0', init_law, ck, 2, 2, method, True, 1)
        ck.case(f'init-{method}', init_law, ck, 1, 2, method, False, 2)
    for N, K in wide.SIZES:
        ck.case(f'wide-{N}-{K}', wide.smoother, ck, bootstrap_backward_smoother, K, N)
    p08.keys(ck, 'smoother', 'gibbs-init')
    ck.bound('up to 33 particles and 20 steps in runs in which every random choice has one outcome (mc/wide.py)')
    ck.bound('every filter population of 2-valued particles with (K+1) N <= 8 (thorough: 10), all observation sequences')
    ck.assume('the initialisation is compared with the composition of its documented parts')

"""Conditional SMC: the real kernel's full transition matrix leaves the exact conditional law invariant."""
import itertools
import numpy as np
import jax.numpy as jnp
from mc import p08, wide
from mc.explore import explore, conformance
from mc.models import Hmm
from mc.report import Violation
from mc import rng
from fbs.samplers.csmc.csmc import csmc_kernel
from fbs.samplers.csmc import resamplings as R


def kernel(m, N, backward, cond_resampling):
    def fn(key, us, bs, vs):
        return csmc_kernel(key, us, bs, vs, jnp.asarray(m.ts), m.init_sampler, m.init_logpdf, m.transition_sampler,
                           m.transition_logpdf, m.lik_logpdf, cond_resampling, N - 1, backward=backward,
                           theta=m.theta)

    return fn


def explore_config(ck, K, N, backward, resampling, labels, vsel, M, budget, seed=0):
    m = Hmm(K, seed=seed)
    P, V = m.paths, m.vpaths[list(vsel)]
    combos = [(a, b, c) for a in range(len(V)) for c in range(len(labels)) for b in range(len(P))]
    us = np.stack([m.emb(P[b]) for _, b, _ in combos])
    bs = np.stack([np.array(labels[c]) for _, _, c in combos])
    vs = np.stack([m.embv(V[a]) for a, _, _ in combos])
    fn = kernel(m, N, backward, getattr(R, resampling))
    law = explore(fn, (us, bs, vs), uniform=M, budget=budget)
    return m, P, V, combos, us, bs, vs, fn, law


def judge(ck, K, N, backward, resampling, labels, vsel, M, budget, all_labels, seed=0):
    m, P, V, combos, us, bs, vs, fn, law = explore_config(ck, K, N, backward, resampling, labels, vsel, M, budget, seed)
    nb = len(combos)
    ck.count(law)
    ous, obs = law.out
    ck.close(law.mass(nb), np.ones(nb), 'mass', 'the probabilities of the outcomes add up to one')
    ck.require(ous.shape[1:] == us.shape[1:] and obs.shape[1:] == bs.shape[1:], 'shape',
               f'output shapes {ous.shape[1:]} {obs.shape[1:]}')
    okb = ((obs >= 0) & (obs < N)).all(axis=1)
    ck.require(okb.all(), 'label-range', 'returned labels are in range', labels=obs[~okb][:3])
    code = m.code(ous)
    ck.require((code >= 0).all(), 'support', 'returned trajectories consist of model states', got=ous[(code < 0).any(1)][:2])
    # a slot that keeps its label keeps the reference value
    same = obs == bs[law.init]
    agree = (m.code(us)[law.init] == code)
    bad = (same & ~agree).any(axis=1)
    ck.require(not bad.any(), 'reference-slot', 'the particle at the reference label is the reference itself',
               example=dict(reference=us[law.init[bad][:1]], labels=bs[law.init[bad][:1]], got=ous[bad][:1],
                            got_labels=obs[bad][:1]))
    ix = m.index(code)
    for a in range(len(V)):
        w = m.joint(V[a])
        pi = w / w.sum()
        tot = np.zeros((len(P), N ** (K + 1)))
        for c in range(len(labels)):
            lo = (a * len(labels) + c) * len(P)
            sel = (law.init >= lo) & (law.init < lo + len(P))
            wt = law.w[sel] * pi[law.init[sel] - lo]
            got = np.bincount(ix[sel], weights=wt, minlength=len(P))
            ck.close(got, pi, 'invariance', f'conditional law not invariant (observations {V[a].tolist()}, reference '
                     f'labels {list(labels[c])})', tol=1e-9, observations=V[a], labels=labels[c], got_law=got, exact=pi)
            code_b = obs[sel] @ (N ** np.arange(K, -1, -1))
            np.add.at(tot, (ix[sel], code_b), wt)
        if all_labels:
            want = np.repeat(pi[:, None], N ** (K + 1), axis=1) / N ** (K + 1)
            ck.close(tot / len(labels), want, 'joint-invariance',
                     f'law of (trajectory, labels) not invariant (observations {V[a].tolist()})', tol=1e-9)
    ck.sample(K=K, particles=N, backward=backward, resampling=resampling, initial_states=nb, outcomes=len(law.w),
              one=dict(reference=code_str(m, us[law.init[0]]), labels=bs[law.init[0]], new=code[0], new_labels=obs[0],
                       probability=law.w[0]), stats=law.stats)
    # the explored support contains what the shipped code does with real keys
    try:
        ck.count(traces=conformance(fn, (us, bs, vs), law, 40, nb, rows=np.arange(0, nb, max(1, nb // 16))))
    except AssertionError as e:
        raise Violation('conformance', str(e))


def code_str(m, us):
    return m.code(us)


def config(ck, name, **kw):
    def go():
        try:
            judge(ck, **kw)
        except Violation as v:
            if kw['M'] >= 12 or v.sig not in ('invariance', 'joint-invariance', 'mass'):
                raise
            # the coarse grid may misrepresent an implementation that compares uniforms with other thresholds
            try:
                judge(ck, **dict(kw, M=12, budget=4e8))
            except rng.BudgetExceeded:
                raise v
            print(f'note: {name}: exact on the refined grid only')

    ck.case(name, go)


def run(ck):
    allb = lambda N, K: list(itertools.product(range(N), repeat=K + 1))
    for res in ('killing', 'multinomial'):
        for bw in (False, True):
            tag = f'{res}-{"backward" if bw else "ancestor"}'
            config(ck, f'K1-N2-{tag}', K=1, N=2, backward=bw, resampling=res, labels=allb(2, 1), vsel=range(4), M=12,
                   budget=1e8, all_labels=True)
            config(ck, f'K2-N2-{tag}', K=2, N=2, backward=bw, resampling=res, labels=allb(2, 2), vsel=range(8), M=2,
                   budget=1e8, all_labels=True)
            config(ck, f'K1-N3-{tag}', K=1, N=3, backward=bw, resampling=res, labels=allb(3, 1), vsel=range(4), M=2,
                   budget=1e8, all_labels=True)
            if not ck.thorough:
                config(ck, f'K3-N2-{tag}', K=3, N=2, backward=bw, resampling=res, labels=[(0, 0, 0, 0), (1, 0, 0, 1)],
                       vsel=[6], M=2, budget=1e8, all_labels=False)
            else:
                config(ck, f'K3-N2-{tag}', K=3, N=2, backward=bw, resampling=res, labels=allb(2, 3),
                       vsel=range(16), M=2, budget=2e9, all_labels=True)
                config(ck, f'K2-N3-{tag}', K=2, N=3, backward=bw, resampling=res, labels=allb(3, 2),
                       vsel=[1, 6], M=2, budget=4e9, all_labels=True)
                for seed in range(1, 5):
                    config(ck, f'K2-N2-{tag}-model{seed}', K=2, N=2, backward=bw, resampling=res, labels=allb(2, 2),
                           vsel=range(8), M=4, budget=4e8, all_labels=True, seed=seed)
                config(ck, f'K1-N4-{tag}', K=1, N=4, backward=bw, resampling=res,
                       labels=[(0, 0), (3, 1), (1, 2)], vsel=range(4), M=2, budget=2e9, all_labels=False)
    for N, K in wide.SIZES:
        for bw in (False, True):
            for m in ('real', 'odd', 'reverse'):
                for kref in (None, K - 1, K - 3) if N > 2 and m == 'real' else (None,):
                    if N > 2 or m == 'real':
                        ck.case(f'wide-{N}-{K}-{m}-{"backward" if bw else "ancestor"}-{kref}', wide.csmc, ck, csmc_kernel,
                                dict(killing=R.killing, multinomial=R.multinomial), K, N, m, bw, kref)
    p08.keys(ck, 'csmc-')
    ck.bound('up to 33 particles and 20 steps in runs in which every random choice has one outcome (mc/wide.py)')
    ck.bound('K <= 3 steps, N <= 3 particles (thorough: 4), 2-valued states and observations, all reference labellings '
             'for K <= 2')
    ck.assume('model numbers are dyadic/small rationals so that the finite uniform law is exact for every threshold met')

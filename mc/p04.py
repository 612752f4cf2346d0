"""The Gibbs kernel: x0 -> x0' leaves the conditional law of the clean state given the observation invariant."""
import itertools
import numpy as np
import jax.numpy as jnp
from mc import p08, wide
from mc.explore import explore, conformance, SIGNS
from mc.models import Joint
from mc.report import Violation
from mc import rng
from fbs.samplers.gibbs import gibbs_kernel


def kernel(m, N, explicit_backward, explicit_final):
    def fn(key, x0, y0, us_star, bs_star):
        return gibbs_kernel(key, x0, y0, us_star, bs_star, jnp.asarray(m.ts), m.fwd_sampler, None, m.unpack, N,
                            m.transition_sampler, m.transition_logpdf, m.lik_logpdf, marg_y=False,
                            explicit_backward=explicit_backward, explicit_final=explicit_final, theta=m.theta)

    return fn


def judge(ck, K, N, eb, ef, labels, M, budget, seed=0, split=False):
    m = Joint(K, seed=seed)
    total = N + 1 if ef else N
    if labels is None:
        # the labels the kernel itself can produce
        rng_ = range(N) if eb else range(total)
        labels = list(itertools.product(rng_, repeat=K + 1))
    combos = [(x, y, b) for y in range(2) for b in range(len(labels)) for x in range(2)]
    x0 = np.array([[m.sgn(x)] for x, _, _ in combos])
    y0 = np.array([[m.sgn(y)] for _, y, _ in combos])
    us = np.repeat(m.sgn(m.paths[1])[None, :, None], len(combos), 0)
    bs = np.array([labels[b] for _, _, b in combos])
    fn = kernel(m, N, eb, ef)
    law = explore(fn, (x0, y0, us, bs), uniform=dict(scalar=M, vector=max(3, M // 2)) if M < 12 else M, normal=SIGNS, budget=budget)
    nb = len(combos)
    ck.count(law)
    nx0, nus, nbs, flags = law.out
    pos = law.w > 0
    ck.close(law.mass(nb), np.ones(nb), 'mass', 'the probabilities of the outcomes add up to one')
    ck.require(nx0.shape[1:] == (1,) and nus.shape[1:] == (K + 1, 1) and nbs.shape[1:] == (K + 1,)
               and flags.shape[1:] == (K + 1,), 'shape', 'output shapes')
    cx, cu = m.code(nx0), m.code(nus)
    ck.require(((cx >= 0) & (cu >= 0).all(1))[pos].all(), 'support', 'outputs are model states')
    ck.require((nus[:, -1] == nx0)[pos].all(), 'bookkeeping', 'the path ends in the new state')
    ck.require((flags == (nbs != bs[law.init]))[pos].all(), 'bookkeeping', 'flags tell which labels changed')
    top = N if eb else total
    ck.require(((nbs >= 0) & (nbs < top)).all(1)[pos].all(), 'label-range', 'new labels are in range')
    ux = m.index(cu)
    ends = m.paths[:, -1]
    for y in range(2):
        # exact conditional laws given v_K = y
        pu = m.w[:, ends == y].sum(1)
        pu = pu / pu.sum()
        px = np.array([pu[ends == a].sum() for a in range(2)])
        joint = np.zeros((len(m.paths), top ** (K + 1)))
        for b in range(len(labels)):
            lo = (y * len(labels) + b) * 2
            sel = (law.init >= lo) & (law.init < lo + 2)
            x = law.init[sel] - lo
            wt = law.w[sel] * px[x]
            got = np.bincount(cx[sel], weights=wt, minlength=2)
            ck.close(got, px, 'invariance', f'p(x0 | y0) is not invariant (y0 = {m.sgn(y)}, labels {list(labels[b])})',
                     tol=1e-9, y0=m.sgn(y), labels=labels[b], got_law=got, exact=px)
            gotu = np.bincount(ux[sel], weights=wt, minlength=len(m.paths))
            ck.close(gotu, pu, 'path-invariance', f'law of the returned path is not p(path | y0) (y0 = {m.sgn(y)}, '
                     f'labels {list(labels[b])})', tol=1e-9, got_law=gotu, exact=pu)
            cb = nbs[sel] @ (top ** np.arange(K, -1, -1))
            np.add.at(joint, (ux[sel], cb), wt)
            T = np.zeros((2, 2))
            np.add.at(T, (x, cx[sel]), law.w[sel])
            ck.require((T > 1e-12).all(), 'irreducible', f'some state is never reached: {T.tolist()}', matrix=T)
        if eb or len(labels) == total ** (K + 1):
            want = np.repeat(pu[:, None], joint.shape[1], 1) / joint.shape[1]
            ck.close(joint / len(labels), want, 'label-law', 'new labels are uniform and independent of the path',
                     tol=1e-9)
    ck.sample(K=K, particles=total, explicit_backward=eb, explicit_final=ef, initial_states=nb, outcomes=len(law.w),
              transition_matrix=T, target=px)
    try:
        ck.count(traces=conformance(wrap_signs(fn, m, ef), (x0, y0, us, bs), law, 30, nb,
                                    rows=np.arange(0, nb, max(1, nb // 8))))
    except AssertionError as e:
        raise Violation('conformance', str(e))


def wrap_signs(fn, m, ef):
    """Real keys draw real normals: for the explicit reference take their signs (a fair sign), as the model assumes."""
    if not ef:
        return fn
    import jax

    def g(key, *a):
        orig = jax.random.normal
        jax.random.normal = lambda *x, **k: jnp.sign(orig(*x, **k))
        try:
            return fn(key, *a)
        finally:
            jax.random.normal = orig

    return g


def config(ck, name, **kw):
    def go():
        try:
            judge(ck, **kw)
        except Violation as v:
            if kw['M'] >= 12 or v.sig not in ('invariance', 'path-invariance', 'label-law', 'mass'):
                raise
            try:
                judge(ck, **dict(kw, M=12, budget=4e8))
            except rng.BudgetExceeded:
                raise v
            print(f'note: {name}: exact on the refined grid only')

    ck.case(name, go)


def run(ck):
    for eb in (True, False):
        for ef in (False, True):
            tag = f'{"explicit" if eb else "ancestor"}-{"reference" if ef else "pinned"}'
            for s in (1, 2, 3):
                config(ck, f'K1-model{s}-{tag}', K=1, N=2, eb=eb, ef=ef, labels=None, M=6, budget=2e8, seed=s)
                config(ck, f'K2-model{s}-{tag}', K=2, N=1 if ef else 2, eb=eb, ef=ef, labels=None, M=6, budget=2e8,
                       seed=s)
            if ck.thorough:
                config(ck, f'K2-N2-{tag}', K=2, N=2, eb=eb, ef=ef, labels=None, M=6, budget=6e9, seed=1)
                config(ck, f'K3-{tag}', K=3, N=1 if ef else 2, eb=eb, ef=ef, labels=None, M=6, budget=6e9, seed=1)
                for s in range(4, 8):
                    config(ck, f'K2-{tag}-model{s}', K=2, N=1 if ef else 2, eb=eb, ef=ef, labels=None, M=6, budget=2e9,
                           seed=s)
    for N, K in wide.SIZES:
        for e in (True, False):
            for kref in (None, K - 1, K - 3) if N > 2 and K > 4 else (None, K - 1) if N > 2 else ():
                ck.case(f'wide-{N}-{K}-{e}-{kref}', wide.gibbs, ck, gibbs_kernel, K, N, e, kref)
    p08.keys(ck, 'gibbs-True', 'gibbs-False')
    ck.bound('up to 33 particles and 20 steps in runs in which every random choice has one outcome (mc/wide.py)')
    ck.bound('K <= 2 steps (thorough: 3), 2 or 3 particles, every label vector, every mode except the bridge option')
    ck.assume('the forward sampler is the exact conditional of the model; the reference law is a fair sign in place of '
              'a standard normal')

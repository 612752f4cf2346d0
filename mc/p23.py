"""The Gaussian-process and Schrodinger-bridge experiment scripts hand the samplers the model that they describe.

Every script is executed in process (mc/scripts.py) with the samplers replaced by recorders.  The histories of sampler
calls are compared with the ones the scripts promise, the laws of what is handed over are read off as affine functions of
the normals drawn, every time step of the model functions is compared with the time reversal of the noising process, and
the selection of the saved particle is enumerated."""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from jax import tree_util as tree
from mc import rng
from mc.explore import Noise, affine
from mc.report import Violation
from mc.sde import Ref
from mc.scripts import execute, Traced, Wave, plt
from mc.p08 import audit, name_of
from fbs.samplers.smc import bootstrap_filter, bootstrap_backward_smoother, pmcmc_kernel, twisted_smc
from fbs.samplers.gibbs import gibbs_kernel
from fbs.samplers.common import MCMCState
from fbs.sdes.simulators import euler_maruyama
from fbs.sdes import make_gaussian_bw_sb, make_linear_sde

SDES = dict(const=lambda: Ref('const', -0.5, 1.), lin=lambda: Ref('lin', 0.02, 4., 0., 1.))


def tok(n, *shape):
    """A recognisable array: distinct for every n and entry."""
    k = int(np.prod(shape, dtype=int))
    return jnp.asarray(1000. * (n + 1) + np.arange(k, dtype=float).reshape(shape) / 7)


def fresh(*name):
    return rng.W.root(name)


# ---- stubs -------------------------------------------------------------------------------------------------------------
def filter_stub(a, n):
    """Also calls the initial sampler, as the filter does, so that its draws belong to the history."""
    N = a['nparticles']
    u0 = a['init_sampler'](fresh('filter', n), a['vs'][0], N)
    us = tok(n, len(a['ts']), *u0.shape)
    return (us[-1] if a['return_last'] else us), tok(100 + n)


def smoother_stub(a, n):
    return tok(200 + n, len(a['ts']), *a['filter_us'].shape[2:])


def gibbs_stub(a, n):
    return (tok(300 + n, *a['x0'].shape), tok(400 + n, *a['us_star'].shape), (jnp.arange(len(a['ts'])) + n) % 2,
            (jnp.arange(len(a['ts'])) + n) % 3 == 0)


def pmcmc_stub(a, n):
    return (tok(300 + n, *a['uT'].shape), tok(500 + n), tok(600 + n, *a['ys'].shape),
            MCMCState(acceptance_prob=tok(700 + n), is_accepted=jnp.array(True), prop_log_ell=tok(0), log_ell=tok(1)))


LW = np.array([0.5, 0.25, 0.125, 0.0625, 0.0625])


def twisted_stub(a, n):
    N = a['nparticles']
    u0 = a['init_sampler'](fresh('twisted', n), N)
    w = (LW if N <= len(LW) else np.arange(1., N + 1))[:N]
    w = w / w.sum()
    return tok(n, N, *u0.shape[1:]), jnp.log(jnp.asarray(np.roll(w, n)))


def em_stub(a, n):
    out = tok(800 + n, len(a['ts']), *a['x0'].shape)
    return out.at[0].set(a['x0']) if a['return_path'] else out[-1]


STUBS = [(bootstrap_filter, filter_stub), (bootstrap_backward_smoother, smoother_stub), (gibbs_kernel, gibbs_stub),
         (pmcmc_kernel, pmcmc_stub), (twisted_smc, twisted_stub)]


# ---- reference -----------------------------------------------------------------------------------------------------------
class Gp:
    def __init__(self, d, obs):
        self.d, self.obs = d, obs
        z = np.linspace(0., 5., d)
        self.C = np.exp(-np.abs(z[:, None] - z[None, :]))
        self.S = self.C + obs * np.eye(d)
        self.joint = np.block([[self.C, self.C], [self.C, self.S]])
        self.G = self.C @ np.linalg.inv(self.S)
        self.post = self.C - self.G @ self.C


def first_call(run, name):
    c = run.of(name)
    if not c:
        raise Violation('no-call', f'the script never calls {name}')
    return c[0]


def check_keys(ck, r, what):
    bad, n = audit(r.uses, r.parent)
    if bad:
        kind, k, v = bad[0]
        raise Violation('key-reuse', f'{what}: {kind}: key {name_of(k, r.parent)}, uses {v}')
    ck.obligations += n
    ck.count(states=len(r.parent), transitions=len(r.calls))


def check_posterior(ck, gp, saved):
    m, c = saved['gp_mean'], saved['gp_cov']
    ck.close(c, gp.post, 'gp-cov', 'saved posterior covariance', tol=1e-9)
    return m


def cov_check(ck, J, want, sig, what, tol=1e-8):
    ck.close(J @ J.T, want, sig, f'covariance of {what}', tol=tol)


# ---- model functions ----------------------------------------------------------------------------------------------------
class Reverse:
    """Euler discretisation of the time reversal, from scratch. drift(z, t), disp(t), mean(t), cov(t) of the noising."""

    def __init__(self, drift, disp, mean, cov, T, d):
        self.f, self.g, self.m, self.S, self.T, self.d = drift, disp, mean, cov, T, d

    def coef(self, t):
        """Reverse drift at t as z -> A z + b, with dispersion."""
        s = self.T - t
        P = np.linalg.inv(self.S(s))
        n = len(self.m(s))
        b0 = self.f(np.zeros(n), s)
        A0 = np.stack([self.f(e, s) - b0 for e in np.eye(n)], axis=1)
        g = self.g(s)
        return -A0 - g ** 2 * P, -b0 + g ** 2 * P @ self.m(s), g


def linear_reverse(ref, gp, d, joint=True):
    S0 = gp.joint if joint else gp.C
    n = len(S0)
    return Reverse(lambda z, s: ref.a(s) * z, lambda s: np.sqrt(ref.b2(s)), lambda s: np.zeros(n),
                   lambda s: ref.F(s, 0.) ** 2 * S0 + ref.Q(s, 0.) * np.eye(n), 1., d)


def lognormal(x, m, s):
    return np.sum(-0.5 * ((x - m) / s) ** 2 - np.log(s) - 0.5 * np.log(2 * np.pi), axis=-1)


def steps_of(ck, K):
    if ck.thorough:
        return list(range(K))
    return sorted({0, 1, 2, K // 3, K // 2, K - 3, K - 2, K - 1})


def lattice(d):
    pts = [np.array([1.1, -0.4, 0.7, 0.2][:d]), np.array([-0.6, 0.9, 0.3, -1.2][:d]), np.zeros(d), np.full(d, -1.7)]
    return pts


def check_transition(ck, rev, ts, tr_sampler, tr_logpdf, lik_logpdf, d, T, skip_last_lik=False):
    K = len(ts) - 1
    N = 2
    us = np.stack(lattice(d)[:N])
    vs = lattice(d)
    no = None
    for k in steps_of(ck, K):
        t, dt = float(ts[k]), float(ts[k + 1] - ts[k])
        A, b, g = rev.coef(t)
        for v in vs[:2]:
            z = np.concatenate([us, np.repeat(v[None], N, 0)], axis=1)
            step = z + (z @ A.T + b) * dt
            if tr_sampler is not None:
                if no is None:
                    no = Noise(lambda key, u, v_, t_: tr_sampler(u, v_, t_, key), jnp.asarray(us), jnp.asarray(v), jnp.asarray(t))
                c, J = affine(ck, no, jnp.asarray(us), jnp.asarray(v), jnp.asarray(t), what='the transition')
                ck.close(c.reshape(N, d), step[:, :d], 'transition-mean', f'mean of the transition from step {k}', tol=1e-7)
                ck.close(J @ J.T, g ** 2 * dt * np.eye(N * d), 'transition-cov', f'covariance of the transition from step {k}', tol=1e-7)
            for w in vs:
                if tr_logpdf is not None:
                    ck.close(tr_logpdf(jnp.asarray(w), jnp.asarray(us), jnp.asarray(v), jnp.asarray(t)),
                             lognormal(w, step[:, :d], g * np.sqrt(dt)), 'transition-density', f'transition density at step {k}', tol=1e-6)
                ck.close(lik_logpdf(jnp.asarray(w), jnp.asarray(us), jnp.asarray(v), jnp.asarray(t)),
                         lognormal(w, step[:, d:], g * np.sqrt(dt)), 'measurement-density', f'measurement density at step {k}', tol=1e-6)
        ck.count(states=2 * len(vs), transitions=1)


def check_ref(ck, sampler, m, S, d, N, what):
    """u_T | y_T under the joint N(m, S)."""
    G = S[:d, d:] @ np.linalg.inv(S[d:, d:])
    P = S[:d, :d] - G @ S[d:, :d]
    no = None
    for v in lattice(d):
        f = lambda key, v_: sampler(key, v_, N)
        no = no or Noise(f, jnp.asarray(v))
        c, J = affine(ck, no, jnp.asarray(v), what=what)
        ck.close(c.reshape(N, d), np.repeat((m[:d] + G @ (v - m[d:]))[None], N, 0), 'ref-mean', f'{what}: mean given {v}', tol=1e-7)
        ck.close(J @ J.T, np.kron(np.eye(N), P), 'ref-cov', f'{what}: covariance', tol=1e-7)


def check_noising(ck, ref, fwd, args, z0, ts, what):
    """A sampler of the noising process started at z0, at all times ts: (K + 1, n)."""
    no = Noise(lambda key, *a: fwd(key, *a), *args)
    c, J = affine(ck, no, *args, what=what)
    n = len(z0)
    m, C = ref.path_law(z0, ts)
    ck.close(c.reshape(len(ts), n), m[:, None] * z0[None], 'noising-mean', f'{what}: mean', tol=1e-7)
    ck.close(J @ J.T, np.kron(C, np.eye(n)), 'noising-cov', f'{what}: covariance', tol=1e-7)


# ---- histories ----------------------------------------------------------------------------------------------------------
def eq(ck, a, b, sig, what):
    ck.close(np.asarray(a, float), np.asarray(b, float), sig, what, tol=1e-9)


def saved_of(ck, r, word):
    ck.require(len(r.saved) == 1, 'saved', f'{word}: one results file is expected, got {list(r.saved)}')
    s, = r.saved.values()
    ck.require({'samples', 'gp_mean', 'gp_cov'} <= set(s), 'saved', f'{word}: the results file has {sorted(s)}')
    return s


def fair_choice(ck, path, argv, stubs, want, what):
    """Enumerate the discrete choices of one sample: the law of the saved sample over the tokens."""
    r = execute(path, argv, stubs=stubs)
    rad = r.radices
    tot, got = 0., {}
    for dg in itertools.product(*[range(n) for n in rad]):
        q = execute(path, argv, stubs=stubs, digits=dg)
        ck.require(q.radices == rad, 'choices', f'{what}: draws depend on earlier draws')
        s = saved_of(ck, q, what)['samples']
        x = tuple(np.round(s.reshape(-1), 6))
        got[x] = got.get(x, 0.) + q.weight
        tot += q.weight
    ck.count(states=len(got), transitions=int(np.prod(rad, dtype=float)) if rad else 1)
    ck.close(tot, 1., 'mass', 'probabilities add up')
    want = {tuple(np.round(np.asarray(k).reshape(-1), 6)): p for k, p in want}
    for x in set(got) | set(want):
        ck.close(got.get(x, 0.), want.get(x, 0.), 'selection', f'{what}: probability of saving particle {x}', tol=1e-9)


def path_given(ck, tr, gp, ref, ts, d, what, first=2):
    """Joint law of (y0 from the saved mean, path) : path pinned at y0 and noising given y0. pick returns (mean, vs)."""
    (cm, cv), (Jm, Jv) = tr.affine(ck, what)
    K = len(ts) - 1
    # observation: the last row of vs
    Jy = Jv[..., -1, :, :]
    ck.close(cv[..., -1, :], np.zeros_like(cv[..., -1, :]), 'y0-mean', 'mean of the observation')
    lead = Jy.shape[:-2]
    Jy0 = Jy.reshape(-1, d, Jy.shape[-1])
    for j in range(len(Jy0)):
        cov_check(ck, Jy0[j], gp.S, 'y0-cov', 'the observation')
        ck.close(Jy0[j], Jy0[0], 'y0-same', 'all paths end at the observation')
        ck.close(Jm, gp.G @ Jy0[j], 'gp-mean', 'the saved posterior mean belongs to the observation')
    ck.close(cm, np.zeros(d), 'gp-mean', 'offset of the saved posterior mean')
    if ref is None:
        return Jy0[0]
    m, C = ref.path_law(np.zeros(1), ts)
    Jp = Jv.reshape((-1, K + 1, d, Jv.shape[-1]))[:, ::-1]
    ck.close(cv, np.zeros_like(cv), 'path-mean', f'{what}: offset of the path')
    # regress on the observation: residuals are independent of it and have the covariance of the noising
    Sinv = np.linalg.inv(gp.S)
    R = []
    for j in range(len(Jp)):
        F = np.einsum('kim,jm->kij', Jp[j], Jy0[0]) @ Sinv
        ck.close(F, m[:, None, None] * np.eye(d)[None], 'path-mean', f'{what}: mean of the path given the observation', tol=1e-7)
        R.append(Jp[j] - np.einsum('kij,jm->kim', F, Jy0[0]))
    M = np.stack(R).reshape(len(R) * (K + 1) * d, -1)
    want = np.kron(np.eye(len(R)), np.kron(C, np.eye(d)))
    ck.close(M @ M.T, want, 'path-cov', f'{what}: covariance of the measurement paths given the observation (independent chains)', tol=1e-7)
    return Jy0[0]


def check_smc_args(ck, c, N, log=True):
    ck.require(c.nparticles == N, 'nparticles', f'{c.name} is given {c.nparticles} particles instead of {N}')
    if 'log' in c.args:
        ck.require(c.log == log, 'log', f'{c.name} is given log={c.log} with log densities')


# ---- toy --------------------------------------------------------------------------------------------------------------------
def toy_model(ck, c, gp, ref, d, dens=True):
    ts = np.asarray(c.ts)
    ck.require(ts[0] == 0. and abs(ts[-1] - 1.) < 1e-12 and (np.diff(ts) > 0).all(), 'ts', f'time grid from {ts[0]} to {ts[-1]}')
    rev = linear_reverse(ref, gp, d)
    check_transition(ck, rev, ts, c.transition_sampler, c.args.get('transition_logpdf') if dens else None,
                     c.args.get('measurement_cond_pdf', c.args.get('likelihood_logpdf')), d, 1.)


def terminal(ref, gp):
    n = len(gp.joint)
    return np.zeros(n), ref.F(1., 0.) ** 2 * gp.joint + ref.Q(1., 0.) * np.eye(n)


def toy_filter(ck, d, sde):
    path, gp, ref = 'experiments/toy/gp_filter.py', Gp(d, 1.), SDES[sde]()
    N = 3
    argv = ['--d', d, '--sde', sde, '--nparticles', N, '--nsamples', 1]
    r = execute(path, argv, stubs=STUBS)
    c = first_call(r, 'bootstrap_filter')
    ts = np.asarray(c.ts)
    check_smc_args(ck, c, N)
    toy_model(ck, c, gp, ref, d)
    check_ref(ck, c.init_sampler, *terminal(ref, gp), d, 2, 'reference sampler')
    check_posterior(ck, gp, saved_of(ck, r, 'filter'))
    tr = Traced(path, argv, lambda q: (saved_of(ck, q, 'filter')['gp_mean'], q.of('bootstrap_filter')[0].vs), stubs=STUBS)
    path_given(ck, tr, gp, ref, ts, d, 'the filter experiment')
    us = np.asarray(c.out[0])
    us = us if c.return_last else us[-1]
    fair_choice(ck, path, argv, STUBS, [(us[i], 1. / N) for i in range(N)], 'the filter experiment')
    r = execute(path, ['--d', d, '--sde', sde, '--nparticles', N, '--nsamples', 3], stubs=STUBS)
    history(ck, r, 'bootstrap_filter', 3, d)


def history(ck, r, name, n, d):
    cs = r.of(name)
    ck.require(len(cs) == n, 'calls', f'{name} is called {len(cs)} times for {n} samples')
    s = saved_of(ck, r, name)['samples']
    ck.require(s.shape == (n, d), 'saved', f'saved samples have shape {s.shape}')
    for i, c in enumerate(cs):
        pool = np.asarray(c.out[0])
        pool = pool if pool.ndim == 2 else pool[-1]
        ck.require(any(np.allclose(s[i], u) for u in pool), 'saved-order', f'sample {i} is not a particle of run {i}')
    check_keys(ck, r, name)


def toy_gibbs(ck, d, sde, flags):
    path, gp, ref = 'experiments/toy/gp_gibbs.py', Gp(d, 1.), SDES[sde]()
    N, n, nc = 3, 3, 2
    argv = ['--d', d, '--sde', sde, '--nparticles', N, '--nsamples', n, '--nchains', nc, *flags]
    r = execute(path, argv, stubs=STUBS)
    c0 = first_call(r, 'bootstrap_filter')
    c = first_call(r, 'gibbs_kernel')
    ts = np.asarray(c.ts)
    toy_model(ck, c, gp, ref, d)
    toy_model(ck, c0, gp, ref, d)
    check_smc_args(ck, c0, N)
    check_smc_args(ck, c, N)
    check_ref(ck, c0.init_sampler, *terminal(ref, gp), d, 2, 'reference sampler')
    gibbs_args(ck, c, flags)
    x, y = lattice(d)[:2]
    check_noising(ck, ref, lambda k, a, b: c.fwd_sampler(k, a, b), (jnp.asarray(x), jnp.asarray(y)), np.concatenate([x, y]), ts, 'forward sampler')
    unpacks(ck, c.unpack, d)
    check_sde(ck, ref, c.sde, ts)
    check_posterior(ck, gp, saved_of(ck, r, 'gibbs'))
    tr = Traced(path, [a if a != n else 1 for a in argv],
                lambda q: (saved_of(ck, q, 'gibbs')['gp_mean'], jnp.stack([k.vs for k in q.of('bootstrap_filter')])), stubs=STUBS)
    Jy = path_given(ck, tr, gp, ref, ts, d, 'initialisation of the Gibbs chains')
    gibbs_history(ck, r, n, nc, d, len(ts))
    y0 = np.asarray(c0.vs[-1])
    for k in r.of('gibbs_kernel'):
        eq(ck, k.y0, y0, 'y0', 'the Gibbs kernel is given another observation than the initialisation')


def unpacks(ck, f, d):
    z = np.arange(6. * d).reshape(3, 2 * d)
    for w in (z, z[0]):
        a, b = f(jnp.asarray(w))
        eq(ck, a, w[..., :d], 'unpack', 'first half')
        eq(ck, b, w[..., d:], 'unpack', 'second half')


def check_sde(ck, ref, sde, ts):
    if sde is None:
        return
    x = np.array([0.7, -1.1])
    for t in np.asarray(ts)[[0, 1, len(ts) // 2, -1]]:
        ck.close(sde.drift(jnp.asarray(x), t), ref.a(t) * x, 'sde', 'drift of the SDE handed over')
        ck.close(float(sde.dispersion(t)) ** 2, ref.b2(t), 'sde', 'dispersion of the SDE handed over')


def gibbs_args(ck, c, flags):
    for name in ('marg_y', 'explicit_backward', 'explicit_final'):
        want = {'marg_y': '--marg', 'explicit_backward': '--explicit_backward', 'explicit_final': '--explicit_final'}[name] in flags
        ck.require(bool(c.args[name]) == want, 'flag', f'{name} is {c.args[name]} with the options {list(flags)}')


def gibbs_history(ck, r, n, nc, d, K1):
    cs = r.of('gibbs_kernel')
    ck.require(len(cs) == n * nc, 'calls', f'the Gibbs kernel runs {len(cs)} times for {n} iterations of {nc} chains')
    s = saved_of(ck, r, 'gibbs')['samples']
    s = s.reshape(nc, n, d) if s.ndim == 2 else s
    ck.require(s.shape == (nc, n, d), 'saved', f'saved samples have shape {s.shape}')
    for i in range(n):
        for j in range(nc):
            c = cs[i * nc + j]
            ck.require(c.bs_star.shape == (K1,) and c.us_star.shape == (K1, d), 'state', f'shapes of the chain state {c.us_star.shape}, {c.bs_star.shape}')
            if i:
                p = cs[(i - 1) * nc + j].out
                eq(ck, c.x0, p[0], 'thread', f'iteration {i} of chain {j} does not start from its last state')
                eq(ck, c.us_star, p[1], 'thread', f'iteration {i} of chain {j} does not start from its last path')
                eq(ck, c.bs_star, p[2], 'thread', f'iteration {i} of chain {j} does not start from its last labels')
            eq(ck, s[j, i], c.out[0], 'saved-order', f'saved sample {i} of chain {j}')
    check_keys(ck, r, 'gibbs')


def toy_pmcmc(ck, d, sde, delta):
    path, gp, ref = 'experiments/toy/gp_pmcmc.py', Gp(d, 1.), SDES[sde]()
    N, n, nc = 3, 3, 2
    argv = ['--d', d, '--sde', sde, '--nparticles', N, '--nsamples', n, '--nchains', nc] + (['--delta', delta] if delta else [])
    r = execute(path, argv, stubs=STUBS)
    c0, c = first_call(r, 'bootstrap_filter'), first_call(r, 'pmcmc_kernel')
    ts = np.asarray(c.ts)
    for q in (c0, c):
        check_smc_args(ck, q, N)
        toy_model(ck, q, gp, ref, d)
    for f in (c0.init_sampler, c.ref_sampler):
        check_ref(ck, f, *terminal(ref, gp), d, 2, 'reference sampler')
    y = lattice(d)[0]
    check_noising(ck, ref, c.fwd_ys_sampler, (jnp.asarray(y),), y, ts, 'forward sampler')
    check_sde(ck, ref, c.sde, ts)
    if delta:
        ck.close(c.delta, delta, 'flag', 'delta')
    check_posterior(ck, gp, saved_of(ck, r, 'pmcmc'))
    tr = Traced(path, [a if a != n else 1 for a in argv],
                lambda q: (saved_of(ck, q, 'pmcmc')['gp_mean'], jnp.stack([k.vs for k in q.of('bootstrap_filter')])), stubs=STUBS)
    path_given(ck, tr, gp, ref, ts, d, 'initialisation of the particle MCMC chains')
    f0, cs = r.of('bootstrap_filter'), r.of('pmcmc_kernel')
    ck.require(len(cs) == n * nc and len(f0) == nc, 'calls', f'{len(cs)} kernel runs')
    s = saved_of(ck, r, 'pmcmc')['samples']
    ck.require(s.shape == (nc, n, d), 'saved', f'saved samples have shape {s.shape}')
    for i in range(n):
        for j in range(nc):
            q = cs[i * nc + j]
            eq(ck, q.y0, f0[0].vs[-1], 'y0', 'observation')
            if i:
                p = cs[(i - 1) * nc + j].out
                for a, b, w in ((q.uT, p[0], 'state'), (q.log_ell, p[1], 'likelihood estimate'), (q.ys, p[2], 'path')):
                    eq(ck, a, b, 'thread', f'iteration {i} of chain {j} does not start from its last {w}')
            else:
                eq(ck, q.log_ell, f0[j].out[1], 'init', f'chain {j} starts from a likelihood estimate that is not its own')
                eq(ck, q.ys, f0[j].vs[::-1], 'init', f'chain {j} starts from another path than the one of its likelihood estimate')
            eq(ck, s[j, i], q.out[0], 'saved-order', f'saved sample {i} of chain {j}')
    check_keys(ck, r, 'pmcmc')


def toy_twisted(ck, d, sde):
    path, gp, ref = 'experiments/toy/gp_twisted.py', Gp(d, 1.), SDES[sde]()
    N = 3
    argv = ['--d', d, '--sde', sde, '--nparticles', N, '--nsamples', 1]
    r = execute(path, argv, stubs=STUBS)
    c = first_call(r, 'twisted_smc')
    check_smc_args(ck, c, N)
    ts = np.asarray(c.ts)
    K = len(ts) - 1
    ck.require(ts[0] == 0. and abs(ts[-1] - 1.) < 1e-12, 'ts', 'time grid')
    rev = linear_reverse(ref, gp, d, joint=False)
    no = Noise(lambda key: c.init_sampler(key, 2))
    cc, J = affine(ck, no, what='initial sampler')
    ck.close(cc, np.zeros(2 * d), 'init', 'mean of the initial sampler')
    ck.close(J @ J.T, np.kron(np.eye(2), ref.F(1., 0.) ** 2 * gp.C + ref.Q(1., 0.) * np.eye(d)), 'init', 'covariance of the initial sampler')
    us = np.stack((lattice(d) * 2)[:N])
    y = lattice(d)[1] * 0.8
    no = Noise(lambda key, u, t, y_: c.twisting_prop_sampler(key, u, t, y_), jnp.asarray(us), jnp.asarray(0.), jnp.asarray(y))
    for k in steps_of(ck, K):
        t, dt = float(ts[k]), float(ts[k + 1] - ts[k])
        A, b, g = rev.coef(t)
        w = np.roll(us, 1, axis=0) + 0.3
        ck.close(c.transition_logpdf(jnp.asarray(w), jnp.asarray(us), jnp.asarray(t)),
                 lognormal(w, us + (us @ A.T + b) * dt, g * np.sqrt(dt)), 'transition-density', f'transition density at step {k}', tol=1e-6)
        M = np.eye(d) + A * dt
        den = us @ M.T + b * dt
        ck.close(c.twisting_logpdf(jnp.asarray(y), jnp.asarray(us), jnp.asarray(t)), lognormal(y, den, 1.), 'twisting', f'twisting function at step {k}', tol=1e-7)
        grad = (y - den) @ M
        prop = us + (us @ A.T + b + g ** 2 * grad) * dt
        cc, J = affine(ck, no, jnp.asarray(us), jnp.asarray(t), jnp.asarray(y), what='twisted proposal')
        ck.close(cc.reshape(N, d), prop, 'proposal-mean', f'mean of the twisted proposal at step {k}', tol=1e-7)
        ck.close(J @ J.T, g ** 2 * dt * np.eye(N * d), 'proposal-cov', f'covariance of the twisted proposal at step {k}', tol=1e-7)
        ck.close(c.twisting_prop_logpdf(jnp.asarray(w), jnp.asarray(us), jnp.asarray(t), jnp.asarray(y)), lognormal(w, prop, g * np.sqrt(dt)),
                 'proposal-density', f'density of the twisted proposal at step {k}', tol=1e-6)
    check_posterior(ck, gp, saved_of(ck, r, 'twisted'))
    tr = Traced(path, argv, lambda q: (saved_of(ck, q, 'twisted')['gp_mean'], q.of('twisted_smc')[0].y[None]), stubs=STUBS)
    path_given(ck, tr, gp, None, ts, d, 'twisted')
    uo, lw = c.out
    fair_choice(ck, path, argv, STUBS, [(np.asarray(uo)[i], float(np.exp(lw[i]))) for i in range(N)], 'the twisted experiment')
    r = execute(path, argv[:-1] + [3], stubs=STUBS)
    history(ck, r, 'twisted_smc', 3, d)
    for q in r.of('twisted_smc'):
        eq(ck, q.y, c.y, 'y0', 'observation')


def toy_csgm(ck, d, sde):
    path, gp, ref = 'experiments/toy/gp_csgm.py', Gp(d, 1.), SDES[sde]()
    stubs = [(euler_maruyama, em_stub)]
    argv = ['--d', d, '--sde', sde, '--nsamples', 2]
    r = execute(path, argv, stubs=stubs)
    c = first_call(r, 'euler_maruyama')
    ts = np.asarray(c.ts)
    ck.require(ts[0] == 0. and abs(ts[-1] - 1.) < 1e-12, 'ts', 'time grid')
    s = saved_of(ck, r, 'csgm')
    check_posterior(ck, gp, s)
    F, Q = ref.F(1., 0.), ref.Q(1., 0.)
    tr = Traced(path, argv[:-1] + [1], lambda q: (saved_of(ck, q, 'csgm')['gp_mean'], q.of('euler_maruyama')[0].x0), stubs=stubs)
    (cm, cx), (Jm, Jx) = tr.affine(ck, 'the initial state')
    cov_check(ck, Jm, gp.G @ gp.S @ gp.G.T, 'gp-mean', 'the saved posterior mean')
    ck.close(np.concatenate([cm, cx]), np.zeros(2 * d), 'init', 'means')
    ck.close(Jx @ Jm.T, F * Jm @ Jm.T, 'init-mean', 'the initial state given the observation has the wrong mean', tol=1e-7)
    R = Jx - F * Jm
    ck.close(R @ R.T, F ** 2 * gp.post + Q * np.eye(d), 'init-cov', 'covariance of the initial state given the observation', tol=1e-7)
    # drift: exact conditional score; y0 from the saved mean
    y0 = np.linalg.solve(gp.G, s['gp_mean'])
    for k in steps_of(ck, len(ts) - 1):
        t = float(ts[k])
        q = 1. - t
        Ft, Qt = ref.F(q, 0.), ref.Q(q, 0.)
        m, S = Ft * gp.G @ y0, Ft ** 2 * gp.post + Qt * np.eye(d)
        for u in lattice(d):
            want = -ref.a(q) * u - ref.b2(q) * np.linalg.solve(S, u - m)
            ck.close(c.drift(jnp.asarray(u), jnp.asarray(t)), want, 'drift', f'conditional reverse drift at step {k}', tol=1e-6)
        ck.close(c.dispersion(jnp.asarray(t)), np.sqrt(ref.b2(q)), 'dispersion', f'reverse dispersion at step {k}', tol=1e-9)
        ck.count(states=len(lattice(d)), transitions=1)
    cs = r.of('euler_maruyama')
    ck.require(len(cs) == 2, 'calls', 'one simulation per sample')
    for i, q in enumerate(cs):
        o = np.asarray(q.out)
        eq(ck, s['samples'][i], o[-1] if q.return_path else o, 'saved-order', f'sample {i}')
    check_keys(ck, r, 'csgm')


def toy_kf(ck, d, sde):
    """The samples, given their measurement paths: the exact conditional of the last state of the Euler chain.

    Only the mean of two samples is visible (the plot)."""
    path, gp, ref = 'experiments/toy/gp_kf.py', Gp(d, 1.), SDES[sde]()
    seen = dict(plots=[], paths=[])

    def linear(a, n):
        seen.update(plots=[], paths=[])
        disc, score, sim = make_linear_sde(**a)

        def simulate(key, x0, ts, *b, **k):
            out = sim(key, x0, ts, *b, **k)
            seen['paths'].append((np.asarray(ts), out))
            return out

        return disc, score, simulate

    def plot(x, y=None, *a, **k):
        seen['plots'].append(y)

    kw = dict(stubs=[(make_linear_sde, linear)], buffers=True, loose=True)
    quiet = lambda *a, **k: None

    patch = [(plt, 'plot', plot), (plt, 'fill_between', quiet)]
    argv = ['--d', d, '--sde', sde, '--nsamples', 2]

    def run_(pick):
        def f(q):
            if len(seen['plots']) != 2 or not seen['paths']:
                raise rng.Unsupported(f'the script does not plot the posterior mean and the mean of the samples: {len(seen["plots"])} {len(seen["paths"])}')
            v = pick(seen['plots'], [p[1] for p in seen['paths']])
            return v

        return Traced(path, argv, f, patch=patch, **kw)

    tr = run_(lambda pl, pa: (jnp.asarray(pl[0]), jnp.stack([jnp.asarray(p)[::-1] for p in pa])))
    r = execute(path, argv, patch=patch, **kw)
    ts = seen['paths'][0][0]
    ck.require(len(seen['paths']) == 2, 'calls', f'{len(seen["paths"])} paths for 2 samples')
    ck.require(ts[0] == 0. and abs(ts[-1] - 1.) < 1e-12 and (np.diff(ts) > 0).all(), 'ts', f'time grid {ts}')
    path_given(ck, tr, gp, ref, ts, d, 'the Kalman filter experiment')
    tr = run_(lambda pl, pa: (jnp.stack([jnp.asarray(p)[::-1] for p in pa]), jnp.asarray(pl[1])))
    (cv, cs), (Jv, Js) = tr.affine(ck, 'the sample')
    K = len(ts) - 1
    rev = linear_reverse(ref, gp, d)
    _, S = terminal(ref, gp)
    cov = np.zeros(((K + 1) * 2 * d,) * 2)
    cov[:2 * d, :2 * d] = S
    for k in range(K):
        A, b, g = rev.coef(float(ts[k]))
        dt = float(ts[k + 1] - ts[k])
        F = np.eye(2 * d) + A * dt
        i, j = 2 * d * k, 2 * d * (k + 1)
        cov[j:j + 2 * d, :j] = F @ cov[i:i + 2 * d, :j]
        cov[:j, j:j + 2 * d] = cov[j:j + 2 * d, :j].T
        cov[j:j + 2 * d, j:j + 2 * d] = F @ cov[i:i + 2 * d, i:i + 2 * d] @ F.T + g ** 2 * dt * np.eye(2 * d)
    ix = np.arange((K + 1) * 2 * d).reshape(K + 1, 2, d)
    u, v = ix[-1, 0], ix[:, 1].reshape(-1)
    B = np.linalg.solve(cov[np.ix_(v, v)], cov[np.ix_(v, u)]).T
    P = cov[np.ix_(u, u)] - B @ cov[np.ix_(v, u)]
    Jp = Jv.reshape(2, (K + 1) * d, -1)
    cp = cv.reshape(2, -1).mean(0)
    R = Js - B @ Jp.mean(0)
    ck.close(R @ Jp.reshape(2 * (K + 1) * d, -1).T, np.zeros((d, 2 * (K + 1) * d)), 'kf-mean', 'mean of the samples given the measurement paths', tol=1e-7)
    ck.close(cs - B @ cp, np.zeros(d), 'kf-mean', 'offset of the samples', tol=1e-7)
    ck.close(R @ R.T, P / 2, 'kf-cov', 'covariance of the mean of two samples given the measurement paths', tol=1e-7)
    ck.count(states=K + 1, transitions=K)
    check_keys(ck, r, 'the Kalman filter experiment')


# ---- Schrodinger bridge -------------------------------------------------------------------------------------------------
def sb_common(ck, r, gp, d):
    c = first_call(r, 'make_gaussian_bw_sb')
    a = list(c.args.values())
    m0, S0, m1, S1 = [np.asarray(v) for v in a[:4]]
    ck.close(m0, np.zeros(2 * d), 'sb', 'initial mean of the bridge')
    ck.close(S0, gp.joint, 'sb', 'initial covariance of the bridge')
    w = np.linalg.eigvalsh(S1)
    ck.require(np.allclose(S1, S1.T) and w.min() > 0, 'sb', 'the reference covariance is not positive definite')
    sig = float(c.args['sig'])
    mean, cov, drift = c.out
    f = lambda g: (lambda *x: np.asarray(g(*[jnp.asarray(v) for v in x])))
    return c, m1, S1, sig, Reverse(f(drift), lambda s: sig, f(mean), f(cov), 1., d), drift


def check_em(ck, q, drift, sig, ts, d):
    eq(ck, q.ts, ts, 'em', 'time grid of the simulation of the bridge')
    for t in (0., 0.3, 0.77):
        for x in (np.concatenate(lattice(d)[:2]), np.concatenate(lattice(d)[1:3])):
            ck.close(q.drift(jnp.asarray(x), jnp.asarray(t)), np.asarray(drift(jnp.asarray(x), jnp.asarray(t))), 'em', 'drift of the bridge', tol=1e-8)
        ck.close(float(np.asarray(q.dispersion(t))), sig, 'em', 'dispersion of the bridge')
    ck.require(q.return_path, 'em', 'the path of the bridge')


SB = STUBS + [(euler_maruyama, em_stub)]


def sb_filter(ck, d, x0):
    path, gp = 'experiments/sb/filter.py', Gp(d, 0.1)
    N = 3
    argv = ['--d', d, '--nparticles', N, '--nsamples', 1, '--x0', x0]
    r = execute(path, argv, stubs=SB, observe=[make_gaussian_bw_sb])
    _, m1, S1, sig, rev, drift = sb_common(ck, r, gp, d)
    c, e = first_call(r, 'bootstrap_filter'), first_call(r, 'euler_maruyama')
    ts = np.asarray(c.ts)
    check_smc_args(ck, c, N)
    check_transition(ck, rev, ts, c.transition_sampler, None, c.measurement_cond_pdf, d, 1.)
    check_ref(ck, c.init_sampler, m1, S1, d, 2, 'reference sampler')
    check_em(ck, e, drift, sig, ts, d)
    eq(ck, c.vs, np.asarray(e.out)[::-1, d:], 'path', 'the measurement path is the reversed second half of the bridge')
    s = saved_of(ck, r, 'sb filter')
    check_posterior(ck, gp, s)
    sb_start(ck, path, argv, gp, d, x0)
    us = np.asarray(c.out[0])
    us = us if c.return_last else us[-1]
    fair_choice(ck, path, argv, SB, [(us[i], 1. / N) for i in range(N)], 'the bridge filter experiment')
    r = execute(path, ['--d', d, '--nparticles', N, '--nsamples', 3, '--x0', x0], stubs=SB)
    history(ck, r, 'bootstrap_filter', 3, d)


def sb_start(ck, path, argv, gp, d, x0):
    """Law of the state the bridge is started from: the observation, and x0 by the option."""
    def ref_fixed(q):
        s = saved_of(ck, q, 'sb')
        x = q.of('euler_maruyama')[0].x0
        return s['gp_mean'], x

    tr = Traced(path, argv, ref_fixed, stubs=SB)
    (cm, cx), (Jm, Jx) = tr.affine(ck, 'the initial state of the bridge')
    Jy = Jx[d:]
    ck.close(cx, np.zeros(2 * d), 'start', 'offset of the initial state')
    cov_check(ck, Jy, gp.S, 'y0-cov', 'the observation')
    ck.close(Jm, gp.G @ Jy, 'gp-mean', 'the saved posterior mean belongs to the observation')
    if x0 == 'proper':
        ck.close(Jx @ Jx.T, gp.joint, 'start', 'law of the state the bridge starts from', tol=1e-7)
    else:
        ck.close(Jx @ Jx.T, np.block([[np.eye(d), np.zeros((d, d))], [np.zeros((d, d)), gp.S]]), 'start', 'law of the state the bridge starts from', tol=1e-7)


def sb_gibbs(ck, d, flags):
    path, gp = 'experiments/sb/gibbs.py', Gp(d, 0.1)
    N, n = 3, 3
    argv = ['--d', d, '--nparticles', N, '--nsamples', n, *flags]
    r = execute(path, argv, stubs=SB, observe=[make_gaussian_bw_sb])
    _, m1, S1, sig, rev, drift = sb_common(ck, r, gp, d)
    c0, c, e = first_call(r, 'bootstrap_filter'), first_call(r, 'gibbs_kernel'), first_call(r, 'euler_maruyama')
    ts = np.asarray(c.ts)
    for q in (c0, c):
        check_smc_args(ck, q, N)
        check_transition(ck, rev, ts, q.transition_sampler, q.args.get('transition_logpdf'),
                         q.args.get('measurement_cond_pdf', q.args.get('likelihood_logpdf')), d, 1.)
    check_ref(ck, c0.init_sampler, m1, S1, d, 2, 'reference sampler')
    check_em(ck, e, drift, sig, ts, d)
    eq(ck, c0.vs, np.asarray(e.out)[::-1, d:], 'path', 'the measurement path is the reversed second half of the bridge')
    gibbs_args(ck, c, flags)
    unpacks(ck, c.unpack, d)
    sb_fwd(ck, path, argv, drift, sig, ts, d)
    check_posterior(ck, gp, saved_of(ck, r, 'gibbs'))
    sb_start(ck, path, [a if a != n else 1 for a in argv], gp, d, 'heuristic')
    gibbs_history(ck, r, n, 1, d, len(ts))
    for k in r.of('gibbs_kernel'):
        eq(ck, k.y0, c0.vs[-1], 'y0', 'observation')


def sb_fwd(ck, path, argv, drift, sig, ts, d):
    """The forward sampler of the Gibbs kernel simulates the bridge from (x0, y0)."""
    x, y = lattice(d)[:2]

    def gibbs(a, n):
        a['seen'] = a['fwd_sampler'](fresh('fwd', n), jnp.asarray(x), jnp.asarray(y))
        return gibbs_stub(a, n)

    r = execute(path, argv, stubs=[(o, gibbs if o is gibbs_kernel else s) for o, s in SB])
    ems, c = r.of('euler_maruyama'), first_call(r, 'gibbs_kernel')
    e = ems[1]
    eq(ck, e.x0, np.concatenate([x, y]), 'fwd', 'the forward sampler starts at (x0, y0)')
    check_em(ck, e, drift, sig, ts, d)
    eq(ck, c.args['seen'], e.out, 'fwd', 'the forward sampler returns the path')


def real_run(ck, name, path, argv, d, obs):
    """The shipped script, untouched and with its own keys: the saved posterior is the one of the explored run fed with its normals."""
    r = execute(path, argv, real=True)
    s = saved_of(ck, r, name)
    gp = Gp(d, obs)
    key = jax.random.PRNGKey(666)
    ck.close(s['gp_cov'], gp.post, 'replay', 'saved covariance of a native run', tol=1e-4)
    q = execute(path, argv, stubs=SB)
    z = []
    for kind, kid, shape, dtype in q.fed[:2]:
        z.append(np.asarray(rng.ORIG['random.normal'](q.world.real_key(kid, None), shape, jnp.float32), float).ravel())
    z = np.concatenate(z)
    w = np.concatenate([z, np.asarray(Wave()[0:q.taken['normal']])])
    q = execute(path, argv, stubs=SB, z=jnp.asarray(w))
    ck.close(s['gp_mean'], saved_of(ck, q, name)['gp_mean'], 'replay', 'saved mean of a native run', tol=1e-3)
    ck.require(np.isfinite(s['samples']).all(), 'replay', 'a native run gives non-finite samples')
    ck.count(traces=1)


def run(ck):
    dims = (1, 2) if not ck.thorough else (1, 2, 3)
    for d in dims:
        for sde in ('const', 'lin'):
            ck.case(f'filter-{sde}-{d}', toy_filter, ck, d, sde)
            ck.case(f'twisted-{sde}-{d}', toy_twisted, ck, d, sde)
            ck.case(f'csgm-{sde}-{d}', toy_csgm, ck, d, sde)
            if d > 1:
                ck.case(f'kf-{sde}-{d}', toy_kf, ck, d, sde)
            for delta in (None, 0.1):
                if delta and (d == 1) == (sde == 'lin') and not ck.thorough:
                    continue
                ck.case(f'pmcmc-{sde}-{d}-{delta}', toy_pmcmc, ck, d, sde, delta)
    fl = ['--explicit_backward', '--explicit_final', '--marg']
    combos = [c for n in range(4) for c in itertools.combinations(fl, n)]
    for i, c in enumerate(combos):
        for d, sde in ((1 + i % 2, ('const', 'lin')[(i // 2) % 2]),) if not ck.thorough else itertools.product(dims, ('const', 'lin')):
            ck.case(f'gibbs-{sde}-{d}-{"+".join(x[2:] for x in c)}', toy_gibbs, ck, d, sde, c)
    for d in dims:
        for x0 in ('proper', 'heuristic'):
            ck.case(f'sb-filter-{x0}-{d}', sb_filter, ck, d, x0)
        for f in ((), ('--explicit_backward',)):
            ck.case(f'sb-gibbs-{d}-{"".join(f)}', sb_gibbs, ck, d, f)
    for name, path, extra, obs in (('filter', 'experiments/toy/gp_filter.py', [], 1.), ('gibbs', 'experiments/toy/gp_gibbs.py', ['--nchains', 2], 1.),
                                   ('pmcmc', 'experiments/toy/gp_pmcmc.py', ['--nchains', 2], 1.), ('twisted', 'experiments/toy/gp_twisted.py', [], 1.),
                                   ('sb-filter', 'experiments/sb/filter.py', [], .1), ('sb-gibbs', 'experiments/sb/gibbs.py', [], .1)):
        ck.case(f'native-{name}', real_run, ck, name, path, ['--d', 2, '--nparticles', 3, '--nsamples', 2, *extra], 2, obs)
    ck.bound('GP regression with 1 and 2 inputs (3 in the thorough tier), both SDEs, all option combinations, 8 of the 200 steps (all in the '
             'thorough tier), three iterations of two chains')
    ck.assume('scripts run in double precision; the samplers themselves are replaced by recorders (they are judged by P01-P07, P19, P20)')

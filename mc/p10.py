"""Closed-form transitions, scores and bridge drifts on a grid of SDEs, times and states, against their definitions."""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from mc import p08
from mc.sde import Ref, REFS, OUS, quad, make_linear_sde, make_ou_sde
from fbs.utils import discretise_lti_sde

MORE = [Ref('const', a, b) for a in (-2., -0.1, 0.25) for b in (0.3, 2.)] + \
       [Ref('lin', lo, hi, t0, T) for lo, hi in ((0.02, 5.), (1., 1.), (3., 0.1)) for t0, T in ((0., 1.), (0.5, 2.), (-1., 3.))] + \
       [Ref('exp', a, b, c, z) for a in (-0.5, -2.) for b in (0.5, 1.5) for c in (-1., 0.5, 1.5) for z in (0., 1.)]


def times(ref, fine):
    lo, hi = (ref.p[2], ref.p[3]) if ref.kind == 'lin' else (0., 2.)
    g = np.linspace(lo, hi, 9 if fine else 6)
    return np.unique(np.concatenate([g, [lo + 1e-3 * (hi - lo), lo + 0.37 * (hi - lo)]]))


def transition(ck, ref, fine):
    sde = ref.sde()
    disc, score, _ = make_linear_sde(sde)
    g = times(ref, fine)
    pairs = np.array([(t, s) for s in g for t in g if t >= s])
    F, Q = jax.jit(jax.vmap(disc))(jnp.asarray(pairs[:, 0]), jnp.asarray(pairs[:, 1]))
    F, Q = np.asarray(F), np.asarray(Q)
    wF = np.array([ref.F(t, s) for t, s in pairs])
    wQ = np.array([ref.Q(t, s) for t, s in pairs])
    ck.count(states=len(pairs), transitions=2 * len(pairs))
    ck.close(F, wF, 'factor', f'transition factor of {ref.name()} at (t, s) in {pairs.tolist()[:3]}...', tol=1e-9)
    ck.close(Q, wQ, 'variance', f'transition variance of {ref.name()}', tol=1e-9)
    ix = {tuple(p): i for i, p in enumerate(pairs)}
    for s, u, t in itertools.combinations_with_replacement(g, 3):
        a, b, c = ix[(u, s)], ix[(t, u)], ix[(t, s)]
        ck.close([F[a] * F[b], F[b] ** 2 * Q[a] + Q[b]], [F[c], Q[c]], 'composition', f'transition over ({s}, {u}, {t})', tol=1e-8)
    # one call with an array of times, with a scalar start, and plain (not compiled) calls
    Fa, Qa = disc(jnp.asarray(g[1:]), g[0])
    ck.close(Fa, [F[ix[(t, g[0])]] for t in g[1:]], 'array-times', 'array of times', tol=1e-12)
    ck.close(Qa, [Q[ix[(t, g[0])]] for t in g[1:]], 'array-times', 'array of times', tol=1e-12)
    for k in range(0, len(pairs), 7):
        a, b = disc(pairs[k, 0], pairs[k, 1])
        ck.close([a, b], [wF[k], wQ[k]], 'plain', 'plain call', tol=1e-9)
        ck.count(traces=1)
    # reported coefficients
    xs = np.array([[0.7, -2.], [0., 3.]])
    for t in g:
        ck.close(sde.drift(jnp.asarray(xs), t), ref.a(t) * xs, 'drift', f'drift of {ref.name()} at {t}', tol=1e-11)
        ck.close(np.asarray(sde.dispersion(t), float) ** 2, ref.b2(t), 'dispersion', f'dispersion of {ref.name()} at {t}', tol=1e-11)
        ck.require(np.asarray(sde.dispersion(t)) > 0, 'dispersion', 'the dispersion is positive')
        if ref.kind == 'lin':
            ck.close(sde.beta(t), ref.b2(t), 'beta', f'beta at {t}', tol=1e-11)
            for s in g:
                if s <= t:
                    ck.close(sde.beta_integral(t, s), quad(ref.b2, s, t), 'beta-integral', f'integral of beta over ({s}, {t})', tol=1e-10)
    ck.sample(sde=ref.name(), pair=pairs[5], factor=F[5], variance=Q[5])
    # mean and variance methods
    if ref.kind != 'exp':
        for k, (t, s) in enumerate(pairs):
            ck.close(sde.mean(t, s, jnp.asarray(xs)), wF[k] * xs, 'mean-method', f'mean at {t} from {s}', tol=1e-9)
            ck.close(sde.variance(t, s), wQ[k], 'variance-method', f'variance at {t} from {s}', tol=1e-9)
    # backwards in time the mean equation is solved too
    for t, s in pairs[::3]:
        ck.close(disc(s, t)[0], ref.F(s, t), 'factor', f'transition factor of {ref.name()} from {t} back to {s}', tol=1e-8)
        if ref.kind != 'exp':
            ck.close(sde.mean(s, t, jnp.asarray(xs)), ref.F(s, t) * xs, 'mean-method', f'mean at {s} from {t}', tol=1e-8)
    if ref.kind == 'lin' and ref.b2(g[-1] + .3) > 0:    # the coefficients are linear beyond the interval too
        f, q = disc(g[-1] + .3, g[1])
        ck.close([f, q], [ref.F(g[-1] + .3, g[1]), ref.Q(g[-1] + .3, g[1])], 'factor', 'transition to a time after the interval', tol=1e-8)
    # conditional score
    x = np.array([1.3, -0.2])
    x0 = np.array([0.4, 2.])
    for k, (t, s) in enumerate(pairs):
        if wQ[k] < 1e-9:
            continue
        want = -(x - wF[k] * x0) / wQ[k]
        ck.close(score(jnp.asarray(x), t, jnp.asarray(x0), s), want, 'score', f'conditional score at {t} from {s}', tol=1e-7)
    # the stationary law: run long enough
    if ref.kind == 'const' and ref.p[0] < 0:
        f, q = disc(200. / -ref.p[0], 0.)
        ck.close([f, q], [0., -ref.p[1] ** 2 / (2 * ref.p[0])], 'stationary', 'stationary law', tol=1e-10)
    if ref.kind == 'exp':
        sv = -ref.p[1] ** 2 / (2 * ref.p[0])
        for t, s in pairs[::5]:
            f, q = disc(t, s)
            ck.close(f ** 2 * sv + q, sv, 'stationary', 'the stationary law is preserved', tol=1e-9)
    if ref.kind == 'lin':
        for t, s in pairs[::5]:
            f, q = disc(t, s)
            ck.close(f ** 2 + q, 1., 'stationary', 'the standard normal law is preserved', tol=1e-9)


def log_h(ref, T, t, x, target):
    F, Q = ref.F(T, t), ref.Q(T, t)
    return -0.5 * (target - F * x) ** 2 / Q


def bridge(ck, ref, fine):
    sde = ref.sde()
    g = times(ref, fine)
    xs = [np.array([0.7, -2.]), np.array([0., 0.]), np.array([-1.5, 0.25])]
    ys = [np.array([0.3, 1.]), np.array([-2., 0.5])]
    for T in g[2:]:
        for t in g:
            if t >= T - 1e-2:
                continue
            F, Q = ref.F(T, t), ref.Q(T, t)
            for x, y in itertools.product(xs, ys):
                want = ref.a(t) * x + ref.b2(t) * F * (y - F * x) / Q
                ck.count(states=1, transitions=1)
                ck.close(sde.bridge_drift(jnp.asarray(x), t, jnp.asarray(y), T), want, 'bridge-drift',
                         f'bridge drift of {ref.name()} at time {t} for target time {T}', tol=1e-7)
            x, y = xs[0].reshape(2, 1), ys[0].reshape(2, 1)
            want = ref.a(t) * x + ref.b2(t) * F * (y - F * x) / Q
            ck.close(sde.bridge_drift(jnp.asarray(x), t, jnp.asarray(y), T), want, 'bridge-drift', 'bridge drift of an array state', tol=1e-7)
            e = 1e-5
            num = np.array([(log_h(ref, T, t, xs[0][i] + e, ys[0][i]) - log_h(ref, T, t, xs[0][i] - e, ys[0][i])) / (2 * e)
                            for i in range(2)])
            got = (np.asarray(sde.bridge_drift(jnp.asarray(xs[0]), t, jnp.asarray(ys[0]), T)) - ref.a(t) * xs[0]) / ref.b2(t)
            ck.close(got, num, 'bridge-gradient', 'gradient of the log transition density to the target', tol=2e-5)
    ck.count(traces=1)


def ou(ck, ref):
    disc, score, _ = make_ou_sde(*ref.p)
    dts = np.concatenate([[0., 1e-3, 0.01], np.linspace(0.1, 3., 12)])
    F, Q = disc(jnp.asarray(dts))
    wF, wQ = np.array([ref.F(t, 0.) for t in dts]), np.array([ref.Q(t, 0.) for t in dts])
    ck.count(states=len(dts), transitions=2 * len(dts), traces=1)
    ck.close(F, wF, 'factor', 'transition factor', tol=1e-9)
    ck.close(Q, wQ, 'variance', 'transition variance', tol=1e-9)
    x, x0 = np.array([1.3, -0.2]), np.array([0.4, 2.])
    for i, t in enumerate(dts[1:], 1):
        ck.close(score(jnp.asarray(x), t, jnp.asarray(x0)), -(x - wF[i] * x0) / wQ[i], 'score', f'conditional score at {t}', tol=1e-7)
        ck.close(score(jnp.asarray(x), t, jnp.asarray(x0)),
                 jax.grad(lambda v: jnp.sum(jax.scipy.stats.norm.logpdf(v, wF[i] * x0, np.sqrt(wQ[i]))))(jnp.asarray(x)),
                 'score', 'gradient of the log density', tol=1e-7)
    for a, b in itertools.product(range(len(dts)), repeat=2):
        f, q = disc(dts[a] + dts[b])
        ck.close([f, q], [F[a] * F[b], F[b] ** 2 * Q[a] + Q[b]], 'composition', 'composition over an intermediate time', tol=1e-9)


def expm(A):
    n = max(0, int(np.ceil(np.log2(max(1e-9, np.abs(A).sum())))) + 6)
    X = A / 2. ** n
    R, term = np.eye(len(A)), np.eye(len(A))
    for k in range(1, 20):
        term = term @ X / k
        R = R + term
    for _ in range(n):
        R = R @ R
    return R


def lti(ck, d, mats):
    n = 0
    for A in mats:
        for B in (np.eye(d), np.tril(np.ones((d, d))), np.diag(np.arange(d, dtype=float)), np.ones((d, 1))):
            gam = B @ B.T
            for dt in (0.01, 0.3, 1.1):
                F, S = discretise_lti_sde(jnp.asarray(A), jnp.asarray(gam), dt)
                wF = expm(A * dt)
                wS = quad(lambda r: expm(A * (dt - r)) @ gam @ expm(A * (dt - r)).T, 0., dt, pieces=1 + int(np.abs(A).max() * dt / 4))
                ck.close(F, wF, 'lti-factor', f'transition matrix for A = {A.tolist()}, dt = {dt}', tol=1e-8)
                ck.close(S, wS, 'lti-cov', f'noise covariance for A = {A.tolist()}, B = {B.tolist()}, dt = {dt}', tol=1e-8)
                n += 1
    ck.count(states=n, transitions=2 * n, traces=n)


def run(ck):
    for ref in REFS + MORE:
        ck.case(f'transition-{ref.name()}', transition, ck, ref, ck.thorough)
        if ref.kind != 'exp':
            ck.case(f'bridge-{ref.name()}', bridge, ck, ref, ck.thorough)
    for ref in OUS:
        ck.case(f'ou-{ref.name()}', ou, ck, ref)
    p08.keys(ck, 'bridge')
    ck.bound('48 SDE parameter sets, all pairs/triples of 8 (thorough: 11) times, 3 states x 2 targets')
    ck.assume('the reference integrates the documented coefficients with Gauss-Legendre quadrature (24 nodes, 6 pieces)')

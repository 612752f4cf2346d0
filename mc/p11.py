"""Simulators against reference integrators: exact law over the Gaussian noise."""
import numpy as np
import jax
import jax.numpy as jnp
from mc import p08
from mc.explore import Noise, affine, explore, GH3, SIGNS
from mc.sde import REFS
from fbs.sdes.simulators import euler_maruyama, reverse_simulator, discrete_time_simulator, doob_bridge_simulator

GRIDS = dict(up=(0., 0.3, 0.8), up_even=(0., 0.5, 1.), late=(0.7, 0.9, 1.6), down=(1.2, 0.9, 0.1), down_even=(1., 0.5, 0.),
             one=(0.2, 0.9), one_down=(0.9, 0.2), four=(0., 0.1, 0.5, 0.6, 1.3), zigzag=(0.3, 0.9, 0.5))
MORE = dict(fine=(0.2, 0.2004, 0.20041, 0.9), long=tuple(np.round(np.linspace(0., 1., 31), 12)), fine_down=(0.9, 0.2004, 0.20039))
M = np.array([[-0.4, 0.7, 0.1], [0.2, -1.1, 0.3], [0.5, 0., -0.2]])
C = np.array([0.3, -0.8, 0.6])


def affine_drift(d):
    """mu(x, t) = (1 + t^2) M x + cos(3 t) c for a state flattened to d entries."""
    return (lambda t: (1 + t ** 2) * M[:d, :d]), (lambda t: np.cos(3 * t) * C[:d])


def code_drift(d):
    def mu(x, t):
        v = x.reshape(-1)
        return ((1 + t ** 2) * (jnp.asarray(M[:d, :d]) @ v) + jnp.cos(3 * t) * jnp.asarray(C[:d])).reshape(x.shape)

    return mu


def sig(t):
    return 0.4 + 0.3 * t ** 2


def em_law(A, b, s, x0, ts, n):
    """Mean and covariance of the Euler-Maruyama path with n substeps, at every time of ts."""
    d = len(x0)
    mean, L = [np.asarray(x0, float)], [np.zeros((d, 0))]
    m, J = mean[0], L[0]
    for t, t2 in zip(ts[:-1], ts[1:]):
        h = abs(t2 - t) / n
        for i in range(n):
            ti = t + (t2 - t) * i / n
            m, J = m + h * (A(ti) @ m + b(ti)), J + h * A(ti) @ J
            J = np.concatenate([J, s(ti) * np.sqrt(h) * np.eye(d)], axis=1)
        mean.append(m)
        L.append(J)
    w = J.shape[1]
    full = np.concatenate([np.concatenate([j, np.zeros((d, w - j.shape[1]))], axis=1) for j in L], axis=0)
    return np.array(mean), full @ full.T


def judge_affine(ck, no, args, mean, cov, what, tol=1e-9, start=None):
    c, J = affine(ck, no, *args, what=what)
    ck.close(c, np.asarray(mean).ravel(), 'mean', f'mean of the {what}', tol=tol)
    ck.close(J @ J.T, cov, 'cov', f'covariance of the {what}', tol=tol)
    return c, J


def em(ck, gname, n, shape, path):
    ts = {**GRIDS, **MORE}[gname]
    d = int(np.prod(shape, dtype=int))
    A, b = affine_drift(d)
    x0 = np.array([0.7, -1.5, 2.])[:d]
    fn = lambda key, x, t: euler_maruyama(key, x, t, code_drift(d), sig, integration_nsteps=n,
                                          **(dict(return_path=path) if path is not None else {}))
    args = (jnp.asarray(x0.reshape(shape)), jnp.asarray(ts))
    no = Noise(fn, *args)
    want = ((len(ts),) if path else ()) + shape
    ck.require(no.out0.shape == want, 'shape', f'shape {no.out0.shape} instead of {want}')
    mean, cov = em_law(A, b, sig, x0, ts, n)
    if not path:
        mean, cov = mean[-1], cov[-d:, -d:]
    c, J = judge_affine(ck, no, args, mean, cov, f'Euler-Maruyama on {ts} with {n} substeps')
    ck.sample(grid=ts, substeps=n, shape=shape, path=path, mean=c)


def em_nonlinear(ck, gname, n, deterministic):
    """A nonlinear drift: values without noise, moments of the law with three-point noise."""
    ts = {**GRIDS, **MORE}[gname]
    mu = lambda x, t, np_: np_.sin(2 * x + t) - 0.3 * x * x * t
    s = (lambda t: 0.) if deterministic else sig
    fn = lambda key, x: euler_maruyama(key, x, jnp.asarray(ts), lambda x_, t: mu(x_, t, jnp), s, integration_nsteps=n,
                                       return_path=True)
    x0 = np.array([0.7])
    law = explore(fn, (x0[None],), normal=GH3, budget=1e7)
    ck.count(law)
    xs, w = x0[None], np.ones(1)
    hist = [xs[:, None]]
    for t, t2 in zip(ts[:-1], ts[1:]):
        h = abs(t2 - t) / n
        for i in range(n):
            ti = t + (t2 - t) * i / n
            z, pz = (np.zeros(1), np.ones(1)) if deterministic else GH3
            rep = len(z)
            xs = np.repeat(xs, rep, 0) + h * mu(np.repeat(xs, rep, 0), ti, np) + s(ti) * np.sqrt(h) * np.tile(z, len(xs))[:, None]
            w = np.repeat(w, rep) * np.tile(pz, len(w))
            hist = [np.repeat(q, rep, 0) for q in hist]
        hist.append(xs[:, None])
    ref = np.concatenate(hist, axis=1)[..., 0]
    got = np.asarray(law.out)[..., 0]
    for k in range(1, 4):
        ck.close((law.w[:, None] * got ** k).sum(0), (w[:, None] * ref ** k).sum(0), 'nonlinear',
                 f'moment {k} of the path with a nonlinear drift on {ts}', tol=1e-8)
    ck.close((law.w[:, None, None] * got[:, :, None] * got[:, None, :]).sum(0),
             (w[:, None, None] * ref[:, :, None] * ref[:, None, :]).sum(0), 'nonlinear',
             'joint second moments of the path with a nonlinear drift', tol=1e-8)


def rev(ck, ref, gname, n, d, explicit):
    ts = {**GRIDS, **MORE}[gname]
    T = ts[-1]
    mu, b2 = ref.a, ref.b2
    S, r = -(M[:d, :d] @ M[:d, :d].T + np.eye(d)), C[:d]
    score_t = lambda t: 1. / (0.5 + t)
    A = lambda s: -mu(T - s) * np.eye(d) + b2(T - s) * score_t(T - s) * S
    b = lambda s: b2(T - s) * score_t(T - s) * r - np.cos(T - s) * C[:d][::-1]
    x0 = np.array([0.7, -1.5])[:d]
    sde = ref.sde()
    kw = dict(integrator='euler-maruyama') if explicit else {}
    fn = lambda key, x, t: reverse_simulator(
        key, x, t, lambda u, t_: score_t(t_) * (jnp.asarray(S) @ u + jnp.asarray(r)),
        lambda u, t_: sde.drift(u, t_) + jnp.cos(t_) * jnp.asarray(C[:d][::-1]), sde.dispersion,
        **(dict(integration_nsteps=n) if n > 1 else {}), **kw)
    args = (jnp.asarray(x0), jnp.asarray(ts))
    no = Noise(fn, *args)
    ck.require(no.out0.shape == (d,), 'shape', f'shape {no.out0.shape}')
    mean, cov = em_law(A, b, lambda s: np.sqrt(b2(T - s)), x0, ts, n)
    c, J = judge_affine(ck, no, args, mean[-1], cov[-d:, -d:], f'reverse-time simulation on {ts} with {n} substeps')
    ck.sample(grid=ts, substeps=n, sde=ref.name(), mean=c)


def disc(ck, gname, shape):
    ts = {**GRIDS, **MORE}[gname]
    d = int(np.prod(shape, dtype=int))
    g = lambda t2, t: (0.3 + t2 - 2 * t)
    q = lambda t2, t: 0.2 + t2 ** 2 + 0.5 * t
    x0 = np.array([0.7, -1.5, 2.])[:d]
    Md, Cd = M[:d, :d], C[:d]
    fn = lambda key, x, t: discrete_time_simulator(
        key, x, t, lambda x_, t2, t1: (g(t2, t1) * (jnp.asarray(Md) @ x_.reshape(-1)) + jnp.asarray(Cd) * t2).reshape(shape), q)
    args = (jnp.asarray(x0.reshape(shape)), jnp.asarray(ts))
    no = Noise(fn, *args)
    ck.require(no.out0.shape == shape, 'shape', f'shape {no.out0.shape}')
    m, P = x0, np.zeros((d, d))
    for t, t2 in zip(ts[:-1], ts[1:]):
        F = g(t2, t) * Md
        m, P = F @ m + Cd * t2, F @ P @ F.T + q(t2, t) ** 2 * np.eye(d)
    judge_affine(ck, no, args, m, P, f'discrete-time simulation on {ts}')


def bridge(ck, ref, ts, n, shape, replace):
    d = int(np.prod(shape, dtype=int))
    T = ts[-1]
    x0, xT = np.array([0.7, -1.5, 2.])[:d], np.array([-0.4, 1., 0.3])[:d]
    F, Q = (lambda t: ref.F(T, t)), (lambda t: ref.Q(T, t))
    A = lambda t: (ref.a(t) - ref.b2(t) * F(t) ** 2 / Q(t)) * np.eye(d)
    b = lambda t: ref.b2(t) * F(t) / Q(t) * xT
    sde = ref.sde()
    kw = {} if replace is None else dict(replace=replace)
    fn = lambda key, x, y, t: doob_bridge_simulator(key, sde, x, y, t, integration_nsteps=n, **kw)
    args = (jnp.asarray(x0.reshape(shape)), jnp.asarray(xT.reshape(shape)), jnp.asarray(ts))
    no = Noise(fn, *args)
    k = len(ts)
    ck.require(no.out0.shape == (k,) + shape, 'shape', f'shape {no.out0.shape}')
    mean, cov = em_law(A, b, lambda t: np.sqrt(ref.b2(t)), x0, ts, n)
    if replace:
        mean[-1] = xT
        cov[-d:] = 0.
        cov[:, -d:] = 0.
    c, J = judge_affine(ck, no, args, mean, cov, f'bridge on {ts} with {n} substeps', tol=1e-7)
    if replace:
        ck.close(c.reshape(k, d)[-1], xT, 'target', 'the bridge ends at its target', tol=0.)
    ck.sample(sde=ref.name(), grid=ts, substeps=n, mean=c)


def run(ck):
    thorough = ck.thorough
    for g in GRIDS:
        for n in (1, 2, 3) + ((4,) if thorough else ()):
            for shape in [(), (1,), (2,), (2, 1), (3,)]:
                size = (len(GRIDS[g]) - 1) * n * int(np.prod(shape, dtype=int))
                if size > (12 if thorough else 8):
                    continue
                for path in (True, False, None):
                    if path is None and (shape != (1,) or n > 1):
                        continue
                    if not thorough and (n == 3 or size > 6 or g == 'four') and (path is False or shape == (2, 1)):
                        continue
                    ck.case(f'em-{g}-n{n}-{shape}-path{path}', em, ck, g, n, shape, path)
        for n in (1, 2, 3):
            if (len(GRIDS[g]) - 1) * n <= 6:
                ck.case(f'nonlinear-{g}-n{n}', em_nonlinear, ck, g, n, False)
            ck.case(f'deterministic-{g}-n{n}', em_nonlinear, ck, g, n, True)
        for shape in [(), (1,), (2,), (1, 2), (3,)]:
            if (len(GRIDS[g]) - 1) * int(np.prod(shape, dtype=int)) <= 8:
                ck.case(f'discrete-{g}-{shape}', disc, ck, g, shape)
    for g, n, shape in (('fine', 1, (1,)), ('fine', 2, (1,)), ('fine_down', 1, (1,)), ('one', 100, ()), ('one_down', 60, (1,)), ('long', 1, (1,)), ('one', 60, (2,))):
        ck.case(f'em-{g}-n{n}-{shape}-more', em, ck, g, n, shape, n == 1)
    for g, shape in (('fine', (1,)), ('fine_down', (1,)), ('long', (1,)), ('long', (2,))):
        ck.case(f'discrete-{g}-{shape}-more', disc, ck, g, shape)
    for g, n in (('fine', 1), ('fine', 3), ('one', 100), ('long', 1)):
        ck.case(f'reverse-{g}-n{n}-more', rev, ck, REFS[1], g, n, 1, False)
    for g, n in (('fine', 1), ('fine', 2), ('one', 60), ('long', 1)):
        ck.case(f'bridge-{g}-n{n}-more', bridge, ck, REFS[0], {**GRIDS, **MORE}[g], n, (1,), True)
    for ref in REFS:
        for g in ('up', 'up_even', 'four'):
            for n in (1, 2, 3):
                for d in (1, 2):
                    if (len(GRIDS[g]) - 1) * n * d <= 8 and not (ref.kind == 'lin' and ref.p[2] > 0):
                        ck.case(f'reverse-{ref.name()}-{g}-n{n}-d{d}', rev, ck, ref, g, n, d, d == 1)
        if ref.kind == 'exp':
            continue
        t0 = ref.p[2] if ref.kind == 'lin' else 0.
        for g in ('up', 'late', 'one', 'four'):
            ts = tuple(t + t0 for t in GRIDS[g])
            for n in (1, 2, 3):
                for shape in [(), (1,), (2,), (1, 2)]:
                    if (len(ts) - 1) * n * int(np.prod(shape, dtype=int)) > 8:
                        continue
                    if not thorough and (len(shape) == 2 and g != 'one' or n == 3 and g != 'up' or shape == ()
                                         and g == 'late'):
                        continue
                    for replace in (False, True) + ((None,) if n == 1 else ()):
                        ck.case(f'bridge-{ref.name()}-{g}-n{n}-{shape}-{replace}', bridge, ck, ref, ts, n, shape, replace)
    p08.keys(ck, 'em-', 'reverse-', 'discrete')
    ck.bound('9 time grids (even, uneven, increasing, decreasing), 1-3 substeps, 5 state shapes, up to 8 normals, each over up '
             'to 5 values')
    ck.assume('the reverse simulator is used on grids starting at zero, as the library does')

"""Forward noising: the exact law of the simulated path, as an affine function of its Gaussian noise."""
import numpy as np
import jax
import jax.numpy as jnp
from mc import p08
from mc.explore import Noise, affine
from mc.sde import REFS, OUS, make_linear_sde, make_ou_sde

GRIDS = [(0., 0.3, 0.7), (0., 0.5, 1.0), (0.25, 0.4, 2.1), (1.1, 1.15, 1.9), (0., 2.), (0.4, 0.5, 0.50001, 1.4)]
X0 = {(): [0.7, -3.], (1,): [[0.7], [-2.]], (2,): [[0.7, -2.], [0., 4.]], (3,): [[1., 2., -5.]],
      (2, 1): [[[1.5], [-0.4]]], (1, 2): [[[1.5, -0.4]]], (2, 2): [[[1.5, -0.4], [2., 0.]]]}


def sim_of(ref):
    return make_ou_sde(*ref.p)[2] if ref.kind == 'ou' else make_linear_sde(ref.sde())[2]


def path(ck, ref, shape, ts):
    sim = sim_of(ref)
    fn = lambda key, x0, ts_: sim(key, x0, ts_)
    n, d = len(ts), int(np.prod(shape, dtype=int))
    tsj = jnp.asarray(ts)
    no = Noise(fn, jnp.asarray(X0[shape][0]), tsj)
    ck.require(no.out0.shape == (n,) + shape, 'shape', f'path of shape {no.out0.shape} instead of {(n,) + shape}')
    m, C = ref.path_law(None, ts)
    for x0 in X0[shape]:
        x0 = np.asarray(x0, float)
        c, J = affine(ck, no, jnp.asarray(x0), tsj, what='path')
        ck.close(c.reshape(n, d), m[:, None] * x0.ravel(), 'mean', f'mean of the path at {ts} from {x0.tolist()}', tol=1e-9)
        cov = (J @ J.T).reshape(n, d, n, d)
        want = np.einsum('ij,kl->ikjl', C, np.eye(d))
        ck.close(cov, want, 'cov', f'covariance of the path at {ts}', tol=1e-9)
        ck.close(c.reshape(n, d)[0], x0.ravel(), 'start', 'the path starts at the given value', tol=0.)
    ck.sample(sde=ref.name(), ts=ts, shape=shape, mean=c, variances=np.diag(C))


def marginal(ck, ref, shape, ts, t0):
    sim = sim_of(ref)
    kw = {} if t0 is None else dict(t0=t0)
    s = ts[0] if t0 is None else t0
    fn = lambda key, x0, ts_: sim(key, x0, ts_, keep_path=False, **kw)
    n, d = len(ts), int(np.prod(shape, dtype=int))
    tsj = jnp.asarray(ts)
    x0s = [jnp.asarray(x, float) for x in X0[shape]]
    out = fn(jax.random.PRNGKey(0), x0s[0], tsj)
    ck.require(out.shape == (n,) + shape, 'shape', f'samples of shape {out.shape} instead of {(n,) + shape}')
    no = Noise(fn, x0s[0], tsj)
    F = np.array([ref.F(t, s) for t in ts])
    Q = np.array([ref.Q(t, s) for t in ts])
    for x0 in x0s:
        c, J = affine(ck, no, x0, tsj, what='samples')
        ck.close(c.reshape(n, d), F[:, None] * np.asarray(x0).ravel(), 'marginal-mean', f'mean of the marginals at {ts}', tol=1e-9)
        cov = (J @ J.T)
        ck.close(cov, np.diag(np.repeat(Q, d)), 'marginal-cov',
                 f'independent draws with the marginal variances at {ts} from time {s}', tol=1e-9)
    ck.sample(sde=ref.name(), ts=ts, t0=t0, shape=shape, mean=c, variances=Q)


def single(ck, ref, shape, t, t0):
    """The memory-saving loss draws at one time per sample."""
    sim = sim_of(ref)
    fn = lambda key, x0s, ts_: jax.vmap(lambda k, x, t_: sim(k, x, t_, t0=t0, keep_path=False))(
        jax.random.split(key, 2), x0s, ts_)
    x0 = np.asarray(X0[shape][0], float)
    x0s = jnp.asarray(np.stack([x0, -2 * x0 + 1.]))
    tsj = jnp.asarray([t, 1.5 * t - 0.5 * t0])
    no = Noise(fn, x0s, tsj)
    ck.require(no.out0.shape == (2,) + shape, 'shape', f'shape {no.out0.shape}')
    c, J = affine(ck, no, x0s, tsj, what='samples')
    F = np.array([ref.F(float(a), t0) for a in tsj])
    Q = np.array([ref.Q(float(a), t0) for a in tsj])
    d = x0.size
    ck.close(c.reshape(2, d), F[:, None] * np.asarray(x0s).reshape(2, d), 'marginal-mean', 'mean at one time per item', tol=1e-9)
    ck.close(J @ J.T, np.diag(np.repeat(Q, d)), 'marginal-cov', 'variance at one time per item, independent items', tol=1e-9)


def batched(ck, ref, shape, ts):
    sim = sim_of(ref)
    fn = lambda key, x0s, ts_: jax.vmap(sim, in_axes=[0, 0, None])(jax.random.split(key, 2), x0s, ts_)
    x0 = np.asarray(X0[shape][0], float)
    x0s = np.stack([x0, -2 * x0 + 1.])
    tsj = jnp.asarray(ts)
    no = Noise(fn, jnp.asarray(x0s), tsj)
    n, d = len(ts), x0.size
    ck.require(no.out0.shape == (2, n) + shape, 'shape', f'shape {no.out0.shape}')
    c, J = affine(ck, no, jnp.asarray(x0s), tsj, what='paths')
    m, C = ref.path_law(None, ts)
    ck.close(c.reshape(2, n, d), m[None, :, None] * x0s.reshape(2, 1, d), 'mean', 'mean of the batched paths', tol=1e-9)
    cov = (J @ J.T).reshape(2, n, d, 2, n, d)
    ck.close(cov, np.einsum('ab,ij,kl->aikbjl', np.eye(2), C, np.eye(d)), 'cov', 'items of a batch are independent', tol=1e-9)


def run(ck):
    for ref in REFS + OUS:
        ou = ref.kind == 'ou'
        shapes = [s for s in X0 if len(s) == 1] if ou else list(X0)
        for shape in shapes:
            for gi, ts in enumerate(GRIDS):
                if ref.kind == 'lin' and ts[0] < ref.p[2]:
                    ts = tuple(t + ref.p[2] for t in ts)
                big = (len(ts) - 1) * int(np.prod(shape, dtype=int))
                if big > 6 and not ck.thorough:
                    continue
                if not ck.thorough and (gi + len(shape)) % 2 and gi > 2:
                    continue
                ck.case(f'path-{ref.name()}-{shape}-{gi}', path, ck, ref, shape, ts)
                if gi in (0, 2, 4) or ck.thorough:
                    ck.case(f'marginal-{ref.name()}-{shape}-{gi}', marginal, ck, ref, shape, ts, None)
                    if not ou:
                        ck.case(f'marginal-t0-{ref.name()}-{shape}-{gi}', marginal, ck, ref, shape, ts,
                                max(ts[0] - 0.125, ref.p[2]) if ref.kind == 'lin' else ts[0] - 0.125)
            if not ou:
                ck.case(f'single-{ref.name()}-{shape}', single, ck, ref, shape, 1.3, 0.25)
                ck.case(f'single0-{ref.name()}-{shape}', single, ck, ref, shape, 1.3, 0.)
            if len(shape) == 1:
                ck.case(f'batched-{ref.name()}-{shape}', batched, ck, ref, shape, GRIDS[1][:2] if shape[0] > 1 else GRIDS[1])
    p08.keys(ck, 'forward-')
    ck.bound('11 parameter sets, 6 time grids, 7 state shapes, up to 6 (thorough 9) normals per path, each over up to 5 values')
    ck.assume('a map that is affine on the whole grid of noise values is affine; its law is then Gaussian with the '
              'mean and covariance read off')

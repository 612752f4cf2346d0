"""The crescent benchmark: sampler law as a function of its noise, densities, score and gridded posterior."""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from mc import p08
from mc.explore import Noise, replays
from fbs.data import Crescent

COVS = (None, ((2., 0.), (0., 1.)), ((0.5, 0.), (0., 3.)), ((1.5, 0.6), (0.6, 1.)), ((1., -0.8), (-0.8, 2.)))


def make(psi, xi, cov=None, m=None):
    kw = {}
    if psi is not None:
        kw['psi'] = psi
    if xi is not None:
        kw['xi'] = xi
    c = Crescent(**kw)
    if cov is not None:
        c.cov = jnp.asarray(np.array(cov))
        c.cov_is_diag = cov[0][1] == 0.
    if m is not None:
        c.m = jnp.asarray(np.array(m))
    C = np.array([[2., 0.], [0., 1.]] if cov is None else cov)
    return c, (1. if psi is None else psi), (1. if xi is None else xi), C, np.array((0., 0.) if m is None else m)


def emission(x, psi):
    return x[..., 1] / psi + 0.5 * (x[..., 0] ** 2 + psi ** 2)


def lprior(x, m, C):
    r = x - m
    return -0.5 * np.einsum('...i,ij,...j', r, np.linalg.inv(C), r) - 0.5 * np.log((2 * np.pi) ** 2 * np.linalg.det(C))


def llik(y, x, psi, xi):
    return -0.5 * (y - emission(x, psi)) ** 2 / xi - 0.5 * np.log(2 * np.pi * xi)


def sampling(ck, conf, B):
    c, psi, xi, C, m = make(*conf)
    no = Noise(lambda key: c.sampler(key, B))
    ck.require(no.nz == 3 * B and no.nu == 0 and not no.radices, 'draws', f'{no.nz} normals drawn for {B} pairs')
    Z = no.grid(pts=(-1.5, 0., 1.), limit=3000)
    E = np.concatenate([np.zeros((1, no.nz)), np.eye(no.nz)])
    xs, ys = no.batch(z=np.concatenate([E, Z]))
    ck.count(states=len(Z), transitions=len(Z) * no.nz)
    ck.require(xs.shape[1:] == (B, 2) and ys.shape[1:] == (B,), 'shape', f'samples of shapes {xs.shape[1:]}, {ys.shape[1:]}')
    res = ys - emission(xs, psi)
    v = np.concatenate([xs.reshape(len(xs), -1), res], axis=1)
    off, J = v[0], (v[1:no.nz + 1] - v[0]).T
    ck.close(v[no.nz + 1:], off + Z @ J.T, 'affine', 'parameter and observation error are not affine in the noise', tol=1e-9)
    ck.close(off, np.concatenate([np.tile(m, B), np.zeros(B)]), 'mean', 'mean of the parameters and of the observation errors')
    S = np.zeros((3 * B, 3 * B))
    S[:2 * B, :2 * B] = np.kron(np.eye(B), C)
    S[2 * B:, 2 * B:] = xi * np.eye(B)
    ck.close(J @ J.T, S, 'covariance', 'joint covariance of the parameters and the observation errors', tol=1e-9)
    replays(ck, no, 5)
    ck.sample(psi=psi, xi=xi, cov=C, batch=B, executions=len(Z))


def densities(ck, conf, pts, obs):
    c, psi, xi, C, m = make(*conf)
    P = np.array(list(itertools.product(pts, repeat=2)))
    ck.close(jax.vmap(c.log_prior_pdf)(jnp.asarray(P)), lprior(P, m, C), 'prior', 'prior log density', tol=1e-9)
    ck.close([float(c.log_prior_pdf(jnp.asarray(p))) for p in P[::7]], lprior(P[::7], m, C), 'prior', 'plain call', tol=1e-9)
    for y in obs:
        ck.close(jax.vmap(lambda p: c.log_cond_pdf_likelihood(y, p))(jnp.asarray(P)), llik(y, P, psi, xi), 'likelihood',
                 f'log likelihood at observation {y}', tol=1e-9)
    ck.close(jax.vmap(lambda p: c.emission(p, psi))(jnp.asarray(P)), emission(P, psi), 'emission', 'emission', tol=1e-9)
    XY = np.array([(*p, y) for p in P for y in obs])
    s = np.asarray(jax.vmap(c.score)(jnp.asarray(XY)))
    r = (XY[:, 2] - emission(XY[:, :2], psi)) / xi
    gp = -(XY[:, :2] - m) @ np.linalg.inv(C)
    want = np.stack([gp[:, 0] + r * XY[:, 0], gp[:, 1] + r / psi, -r], axis=1)
    ck.close(s, want, 'score', 'score of the joint density', tol=1e-8)
    # the score against the differences of the densities the object itself reports
    h = 1e-5
    lj = lambda xy: lprior(xy[:, :2], m, C) + llik(xy[:, 2], xy[:, :2], psi, xi)
    num = np.stack([(lj(XY + h * e) - lj(XY - h * e)) / (2 * h) for e in np.eye(3)], axis=1)
    ck.close(s, num, 'score', 'score against differences of the log density', tol=1e-5)
    ck.close(np.stack([np.asarray(c.score(jnp.asarray(v))) for v in XY[::31]]), want[::31], 'score', 'plain call', tol=1e-8)
    a, b = c.unpack(jnp.asarray(XY))
    ck.require(np.array_equal(a, XY[:, :2]) and np.array_equal(b, XY[:, 2]), 'unpack', 'unpacking a joint point')
    ck.count(states=len(XY), transitions=3 * len(XY), traces=len(XY[::31]))
    ck.sample(psi=psi, xi=xi, point=XY[5], score=s[5])


def trap(f, x, axis):
    x = np.asarray(x)
    d = np.diff(x)
    f = np.moveaxis(f, axis, -1)
    return (0.5 * d * (f[..., 1:] + f[..., :-1])).sum(-1)


def posterior(ck, conf, gx, gy, obs, label):
    c, psi, xi, C, m = make(*conf)
    mesh = np.dstack(np.meshgrid(gx, gy))  # (ny, nx, 2)
    for y in obs:
        p = np.asarray(c.posterior(jnp.asarray(mesh), y))
        ck.require(p.shape == mesh.shape[:2], 'shape', f'posterior of shape {p.shape}')
        e = np.exp(lprior(mesh, m, C) + llik(y, mesh, psi, xi))
        z = trap(trap(e, gx, 1), gy, 0)
        tot = trap(trap(p, gx, 1), gy, 0)
        ck.close(p / p.max(), e / e.max(), 'proportional', f'posterior at observation {y} against prior times likelihood ({label})', tol=1e-9)
        ck.close(tot, 1., 'normalised', f'integral of the posterior at observation {y} over its mesh ({label})', tol=1e-9)
        ck.close(p, e / z, 'posterior', f'posterior at observation {y} ({label})', tol=1e-9)
        ck.count(states=mesh.shape[0] * mesh.shape[1], transitions=1, traces=1)
    ck.sample(mesh=list(mesh.shape), observation=y, integral=tot)


def run(ck):
    confs = [(psi, xi) for psi in (None, 0.5, 1.5, -2.) for xi in (None, 0.25, 4.)]
    confs += [(None, 0.5, C) for C in COVS[1:]] + [(1.5, 2., C, (0.5, -1.)) for C in COVS[2:]]
    pts = (-2., -0.7, 0., 0.4, 1.3) if not ck.thorough else tuple(np.linspace(-3, 3, 13))
    obs = (-1.5, 0., 0.8, 3.)
    x1, x2, x3 = np.linspace(-3, 3, 9), np.linspace(-2, 4, 14), np.array([-2., -1.5, -0.2, 0.1, 0.5, 2., 4.])
    for i, cf in enumerate(confs):
        for B in (1, 2) + ((3,) if ck.thorough else ()):
            ck.case(f'sampler-{i}-{B}', sampling, ck, cf, B)
        ck.case(f'densities-{i}', densities, ck, cf, pts, obs)
        for label, gx, gy in (('square', x1, x1), ('wide', x2, x1), ('tall', x1, x2), ('uneven', x3, x1), ('uneven square', x3, x3[::-1] * -1),
                              ('shifted', x1, x1 * 0.5 + 1.)):
            ck.case(f'posterior-{i}-{label}', posterior, ck, cf, gx, gy, obs, label)
    p08.keys(ck, 'crescent')
    ck.bound('12 settings of shape and noise, 7 of prior moments, 25 points x 4 observations, 6 meshes (square and not, even and uneven), '
             'sampler noise on all grid points for 1 and 2 pairs')
    ck.assume('meshes are made by numpy.meshgrid with its default indexing, as for plotting')

"""The Gaussian Schrodinger bridge with a Brownian reference, on a grid of Gaussians, coefficients and times."""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from fbs.sdes.linear import make_gaussian_bw_sb

COVS = {1: [np.array([[v]]) for v in (1., 0.04, 9.)],
        2: [np.eye(2), np.array([[2., 0.9], [0.9, 1.]]), np.array([[0.05, -0.1], [-0.1, 3.]]), np.diag([4., 0.1])],
        3: [np.eye(3), np.array([[2., 0.5, 0.], [0.5, 1., -0.3], [0., -0.3, 0.7]]), np.diag([0.1, 1., 5.])]}
MEANS = {d: [np.zeros(d), np.array([1., -2., 0.5])[:d]] for d in (1, 2, 3)}
TS = np.array([0., 0.1, 0.25, 0.5, 0.77, 1.])


def judge(ck, d, m0, c0, m1, c1, sig, steps):
    mm, mc, drift = make_gaussian_bw_sb(*(jnp.asarray(v) for v in (m0, c0, m1, c1)), **({} if sig is None else dict(sig=sig)))
    sg = 1. if sig is None else sig
    ck.close(mm(0.), m0, 'ends', 'mean at 0', tol=1e-9)
    ck.close(mm(1.), m1, 'ends', 'mean at 1', tol=1e-9)
    ck.close(mc(0.), c0, 'ends', 'covariance at 0', tol=1e-8)
    ck.close(mc(1.), c1, 'ends', 'covariance at 1', tol=1e-8)
    f = jax.jit(lambda t: (mm(t), mc(t), jax.jacfwd(mm)(t), jax.jacfwd(mc)(t), drift(mm(t), t),
                           jax.jacfwd(drift)(mm(t), t), jax.jacfwd(drift)(mm(t) + 1.7, t), drift(mm(t) + 1.7, t)))
    for t in TS:
        m, P, dm, dP, b, S, S2, b2 = (np.asarray(v) for v in f(t))
        ck.close(P, P.T, 'symmetric', f'covariance at {t} is symmetric', tol=1e-9)
        ck.require(np.linalg.eigvalsh(P).min() > 0, 'positive', f'covariance at {t} is positive definite')
        ck.close(S2, S, 'linear', 'the drift is affine in the state', tol=1e-8)
        ck.close(b2, b + S @ np.full(d, 1.7), 'linear', 'the drift is affine in the state', tol=1e-7)
        ck.close(b, dm, 'mean-equation', f'the drift moves the mean at {t}', tol=1e-7)
        ck.close(S @ P + P @ S.T + sg ** 2 * np.eye(d), dP, 'covariance-equation', f'the drift and the diffusion move the '
                 f'covariance at {t} (sig = {sg}, cov0 = {c0.tolist()}, cov1 = {c1.tolist()})', tol=1e-6)
    # the coupling of the end points: transition matrix of the drift over [0, 1] by RK4
    Sg = jax.jit(jax.vmap(lambda t: jax.jacfwd(drift)(jnp.zeros(d), t)))(jnp.linspace(0., 1., 2 * steps + 1))
    Sg = np.asarray(Sg)
    h, Phi = 1. / steps, np.eye(d)
    for k in range(steps):
        A, B, C = Sg[2 * k], Sg[2 * k + 1], Sg[2 * k + 2]
        k1 = A @ Phi
        k2 = B @ (Phi + h / 2 * k1)
        k3 = B @ (Phi + h / 2 * k2)
        k4 = C @ (Phi + h * k3)
        Phi = Phi + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    joint = np.block([[c0, c0 @ Phi.T], [Phi @ c0, c1]])
    lam = np.linalg.inv(joint)
    ck.close(lam[:d, d:] * sg ** 2, -np.eye(d), 'entropic-optimal', 'the end-point coupling is the entropic optimal transport plan '
             f'(sig = {sg})', tol=1e-4)
    ck.count(states=len(TS) + 2 * steps + 1, transitions=len(TS) + steps, traces=1)
    # the same values through a compiled call and plain calls
    t = 0.37
    x = np.linspace(-1., 2., d)
    ck.close(jax.jit(drift)(jnp.asarray(x), t), drift(jnp.asarray(x), t), 'compiled', 'compiled and plain call', tol=1e-9)
    ck.sample(sig=sg, cov0=c0, cov1=c1, cov_half=mc(0.5))


def run(ck):
    for d in (1, 2, 3):
        n = 0
        for (i, c0), (j, c1) in itertools.product(enumerate(COVS[d]), repeat=2):
            for sig in (None, 0.5, 2.) + ((0.2, 4.) if ck.thorough else ()):
                m0, m1 = MEANS[d][n % 2], MEANS[d][(n // 2) % 2]
                n += 1
                ck.case(f'd{d}-{i}-{j}-{sig}', judge, ck, d, m0, c0, m1, c1, sig, 1000 if ck.thorough else 400)
    ck.bound('dimensions 1 to 3, all pairs of 3 or 4 covariances, 3 (thorough: 5) diffusion coefficients, 6 times')
    ck.assume('end-point coupling by fourth-order integration of the drift (tolerance 1e-4)')

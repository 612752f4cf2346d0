"""Small finite state-space models with exactly representable probabilities."""
import itertools
import numpy as np
import jax
import jax.numpy as jnp


class Hmm:
    """u_k in {0,..,S-1}, v_k in {0,1}, time-inhomogeneous, depending on v_{k-1} and on a keyword parameter theta.

    A state u is embedded in R^2 as (u, 3 - 2u); v as (v,). Times are not uniformly spaced and not starting at 0.
    The driver functions identify the step by the *time* they are given and the model by the keyword they are given, so
    that a wrong time, a shifted observation, a dropped keyword or a transposed state changes the explored law."""

    def __init__(self, K, seed=0, probs=(0.25, 0.5, 0.75), liks=(1., 2.), homogeneous_init=False):
        r = np.random.default_rng(seed)
        self.K = K
        self.ts = np.array([0.3, 0.7, 0.8, 1.6, 1.75, 2.9])[:K + 1]
        self.theta = 1.0
        # tables indexed [theta, k, v_prev, u_prev] -> P(u_k = 1); [theta, k, v_prev, u_prev, v] -> L
        self.T = r.choice(probs, size=(2, K + 1, 2, 2))
        self.L = r.choice(liks, size=(2, K + 1, 2, 2, 2))
        for k in range(K + 1):  # make sure that nothing is constant where it matters
            for v in range(2):
                if self.T[1, k, v, 0] == self.T[1, k, v, 1]:
                    self.T[1, k, v, 0] = probs[0] if self.T[1, k, v, 1] != probs[0] else probs[-1]
                for w in range(2):
                    if self.L[1, k, v, 0, w] == self.L[1, k, v, 1, w]:
                        self.L[1, k, v, 0, w] = liks[0] if self.L[1, k, v, 1, w] != liks[0] else liks[-1]
        self.mu = np.array([0.25, 0.75])  # P(u_0 = 1 | v_0)
        self.g = r.choice(liks, size=(2, 2, 2, 2))  # [theta, v0, v1, u0]
        self.g[1, :, :, 0] = liks[0]
        self.g[1, :, :, 1] = liks[-1]
        self.g[1, 1, 0] = [liks[-1], liks[0]]
        self.paths = np.array(list(itertools.product([0, 1], repeat=K + 1)))
        self.vpaths = self.paths

    # ---- embedding
    def emb(self, u):
        u = np.asarray(u)
        return np.stack([u, 3. - 2. * u], axis=-1).astype(float)

    @staticmethod
    def jcode(us):
        return jnp.round(us[..., 0]).astype(jnp.int64)

    def embv(self, v):
        return np.asarray(v, float)[..., None]

    @staticmethod
    def code(us):
        """Back to integers; -1 for something that is not an embedded state."""
        us = np.asarray(us)
        c = np.round(us[..., 0]).astype(int)
        ok = (np.abs(us[..., 0] - c) < 1e-9) & (np.abs(us[..., 1] - (3 - 2 * c)) < 1e-9) & (c >= 0) & (c <= 1)
        return np.where(ok, c, -1)

    def step(self, t):
        return jnp.argmin(jnp.abs(jnp.asarray(self.ts) - t)) + 0  # t_{k-1} -> k-1

    # ---- driver functions (what a user of the library would pass)
    def init_sampler(self, key, *args):
        n = args[-1]
        v0 = args[0] if len(args) > 1 else None
        p = self.mu[0] if v0 is None else jnp.asarray(self.mu)[jnp.round(v0[0]).astype(int)]
        u = jax.random.bernoulli(key, p, (n,)).astype(float)
        return jnp.stack([u, 3. - 2. * u], axis=-1)

    def init_logpdf(self, v0, us, v1, theta=0., **kw):
        th = jnp.round(theta).astype(int) if hasattr(theta, 'astype') else int(round(theta))
        return jnp.log(jnp.asarray(self.g)[th, jnp.round(v0[0]).astype(int), jnp.round(v1[0]).astype(int),
                                           self.jcode(us)])

    @staticmethod
    def _th(theta):
        return jnp.round(jnp.asarray(theta)).astype(int)

    def transition_sampler(self, us, v, t, key, theta=0., **kw):
        p = jnp.asarray(self.T)[self._th(theta), self.step(t) + 1, jnp.round(v[0]).astype(int), self.jcode(us)]
        u = jax.random.bernoulli(key, p, us.shape[:1]).astype(float)
        return jnp.stack([u, 3. - 2. * u], axis=-1)

    def transition_logpdf(self, u, us, v, t, theta=0., **kw):
        p = jnp.asarray(self.T)[self._th(theta), self.step(t) + 1, jnp.round(v[0]).astype(int), self.jcode(us)]
        return jnp.log(jnp.where(self.jcode(u) == 1, p, 1 - p))

    def lik_logpdf(self, v, us, v_prev, t, theta=0., **kw):
        return jnp.log(jnp.asarray(self.L)[self._th(theta), self.step(t) + 1, jnp.round(v_prev[0]).astype(int),
                                           self.jcode(us), jnp.round(v[0]).astype(int)])

    # ---- exact reference
    def joint(self, v, with_init_lik=True, mu_given_v=False):
        """Unnormalised joint weight of every path u given the v path."""
        w = np.zeros(len(self.paths))
        for i, u in enumerate(self.paths):
            mu1 = self.mu[v[0]] if mu_given_v else self.mu[0]
            p = mu1 if u[0] else 1 - mu1
            if with_init_lik:
                p *= self.g[1, v[0], v[1], u[0]]
            for k in range(1, self.K + 1):
                t1 = self.T[1, k, v[k - 1], u[k - 1]]
                p *= (t1 if u[k] else 1 - t1) * self.L[1, k, v[k - 1], u[k - 1], v[k]]
            w[i] = p
        return w

    def index(self, codes):
        """Path codes (R, K+1) -> index into self.paths, or -1."""
        bad = (codes < 0).any(axis=1)
        ix = codes @ (2 ** np.arange(self.K, -1, -1))
        return np.where(bad, -1, ix)


class Joint:
    """A finite joint law of (u_{0:K}, v_{0:K}), u, v in {-1, +1}, with exactly sampled conditionals.

    u_0, v_0 are independent fair signs (so that the two-point 'normal' reference is exact); u_k and v_k are independent
    given (u_{k-1}, v_{k-1}) and p(v_k | ...) is a proper conditional density with values in {1/4, 3/4}."""

    def __init__(self, K, seed=0, dx=1):
        r = np.random.default_rng(seed)
        self.K = K
        self.ts = np.array([0.3, 0.7, 0.8, 1.6, 1.75, 2.9])[:K + 1]
        self.theta = 1.0
        shape = (2, K + 1, 2, 2)  # [theta, k, v_prev, u_prev]
        self.T = r.choice([0.25, 0.5, 0.75], size=shape)
        self.L = r.choice([0.25, 0.75], size=shape)
        for k in range(K + 1):
            for v in range(2):
                hi = r.integers(2)
                self.T[1, k, v, hi], self.T[1, k, v, 1 - hi] = 0.75, r.choice([0.25, 0.5])
                hi = r.integers(2)
                self.L[1, k, v, hi], self.L[1, k, v, 1 - hi] = 0.75, 0.25
        self.paths = np.array(list(itertools.product([0, 1], repeat=K + 1)))
        P = self.paths
        w = np.zeros((len(P), len(P)))  # [u path, v path]
        for i, u in enumerate(P):
            for j, v in enumerate(P):
                p = 0.25
                for k in range(1, K + 1):
                    a, b = self.T[1, k, v[k - 1], u[k - 1]], self.L[1, k, v[k - 1], u[k - 1]]
                    p *= (a if u[k] else 1 - a) * (b if v[k] else 1 - b)
                w[i, j] = p
        self.w = w  # sums to one

    @staticmethod
    def sgn(c):
        return 2. * np.asarray(c) - 1.

    @staticmethod
    def jcode(x):
        return jnp.where(jnp.asarray(x)[..., 0] > 0, 1, 0)

    @staticmethod
    def code(x):
        x = np.asarray(x)[..., 0]
        return np.where(x == 1., 1, np.where(x == -1., 0, -1))

    def step(self, t):
        return jnp.argmin(jnp.abs(jnp.asarray(self.ts) - t)) + 1

    @staticmethod
    def _th(theta):
        return jnp.round(jnp.asarray(theta)).astype(int)

    def transition_sampler(self, us, v, t, key, theta=0., **kw):
        p = jnp.asarray(self.T)[self._th(theta), self.step(t), self.jcode(v), self.jcode(us)]
        return 2. * jax.random.bernoulli(key, p, us.shape[:1]).astype(float)[:, None] - 1.

    def transition_logpdf(self, u, us, v, t, theta=0., **kw):
        p = jnp.asarray(self.T)[self._th(theta), self.step(t), self.jcode(v), self.jcode(us)]
        return jnp.log(jnp.where(self.jcode(u) == 1, p, 1 - p))

    def lik_logpdf(self, v, us, v_prev, t, theta=0., **kw):
        p = jnp.asarray(self.L)[self._th(theta), self.step(t), self.jcode(v_prev), self.jcode(us)]
        return jnp.log(jnp.where(self.jcode(v) == 1, p, 1 - p))

    def fwd_sampler(self, key, x0, y0, theta=0., **kw):
        """Exact draw of the remaining path given (u_K, v_K) = (x0, y0), in forward (noising) order."""
        K = self.K
        n = len(self.paths)
        end = self.paths[:, -1]
        # pairs of paths with given ends
        tab = np.zeros((2, 2, n, n))
        for a in range(2):
            for b in range(2):
                tab[a, b] = self.w * (end == a)[:, None] * (end == b)[None, :]
                tab[a, b] /= tab[a, b].sum()
        half = n // 2
        ia = np.stack([np.nonzero(end == a)[0] for a in range(2)])
        sub = np.stack([np.stack([tab[a, b][np.ix_(ia[a], ia[b])].reshape(-1) for b in range(2)]) for a in range(2)])
        cx, cy = self.jcode(x0), self.jcode(y0)
        p = jnp.asarray(sub)[cx, cy]
        # a wrong model keyword gives a wrong sampler
        p = jnp.where(self._th(theta) == 1, p, jnp.ones_like(p) / p.shape[0])
        m = jax.random.choice(key, half * half, (), p=p)
        P = jnp.asarray(self.sgn(self.paths))
        xs = P[jnp.asarray(ia)[cx, m // half]][::-1]
        ys = P[jnp.asarray(ia)[cy, m % half]][::-1]
        return jnp.stack([xs, ys], axis=-1)

    @staticmethod
    def unpack(xy, **kw):
        return xy[..., :1], xy[..., 1:]

    def index(self, codes):
        bad = (codes < 0).any(axis=1)
        return np.where(bad, -1, codes @ (2 ** np.arange(self.K, -1, -1)))

"""Training losses as functions of their noise, against independently written objectives.

With networks and drifts that are affine in the state, every loss is a quadratic polynomial of the Gaussian noise. That is
established on a grid of noise values, the polynomial is read off, and its law (first three cumulants of the Gaussian
quadratic form) is compared with that of the documented objective."""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from jax.experimental import disable_x64
from mc import p08
from mc.explore import Noise, flatb, flat, explore, SIGNS
from mc.report import Inconclusive
from mc.sde import REFS, OUS, Ref
from fbs.sdes.linear import make_linear_sde_law_loss, make_ou_score_matching_loss
from fbs.dsb.base import ipf_loss_disc, ipf_loss_cont, ipf_loss_cont_v


# ---- affine arithmetic: c + J z ---------------------------------------------------------------------------------------
class Aff:
    def __init__(self, c, J):
        self.c, self.J = np.asarray(c, float), np.asarray(J, float)

    def __add__(self, o):
        return Aff(self.c + o.c, self.J + o.J) if isinstance(o, Aff) else Aff(self.c + o, self.J)

    __radd__ = __add__

    def __neg__(self):
        return Aff(-self.c, -self.J)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, s):
        return Aff(self.c * s, self.J * s)

    __rmul__ = __mul__

    def lin(self, M):
        return Aff(M @ self.c, M @ self.J)


class Z:
    def __init__(self, n):
        self.n, self.i = n, 0

    def draw(self, d):
        J = np.zeros((d, self.n))
        J[np.arange(d), self.i + np.arange(d)] = 1.
        self.i += d
        return Aff(np.zeros(d), J)

    def const(self, c):
        return Aff(c, np.zeros((len(c), self.n)))


def quadratic(terms, n):
    """Cumulants of sum_i w_i (c_i + J_i z)^2."""
    c, b, A = 0., np.zeros(n), np.zeros((n, n))
    for e, w in terms:
        c += w * (e.c ** 2).sum()
        b += 2 * w * e.c @ e.J
        A += w * e.J.T @ e.J
    return cumulants(c, b, A)


def cumulants(c, b, A):
    return np.array([c + np.trace(A), 2 * np.trace(A @ A) + b @ b, 8 * np.trace(A @ A @ A) + 6 * b @ A @ b])


def polynomial(ck, no, *args, u=None, tol=1e-7):
    """The loss as a quadratic polynomial of its normals."""
    n = no.nz
    E = np.eye(n)
    pairs = list(itertools.combinations(range(n), 2))
    G = no.grid(limit=3000) if n else np.zeros((1, 0))
    Zs = np.concatenate([np.zeros((1, n)), E, -E] + [np.array([E[i] + E[j]]) for i, j in pairs] + [G])
    kw = {} if u is None else dict(u=np.repeat(np.asarray(u, float)[None], len(Zs), 0))
    v = np.asarray(no.batch(*args, z=Zs, **kw), float)
    ck.require(v.ndim == 1, 'scalar', f'the loss is a scalar, got shape {v.shape[1:]}')
    c = v[0]
    b = (v[1:n + 1] - v[n + 1:2 * n + 1]) / 2
    A = np.diag((v[1:n + 1] + v[n + 1:2 * n + 1]) / 2 - c)
    for k, (i, j) in enumerate(pairs):
        A[i, j] = A[j, i] = (v[2 * n + 1 + k] - c - b[i] - b[j] - A[i, i] - A[j, j]) / 2
    k = 2 * n + 1 + len(pairs)
    ck.count(states=len(Zs), transitions=len(Zs) * max(1, len(no.specs)))
    ck.close(v[k:], c + G @ b + np.einsum('ri,ij,rj->r', G, A, G), 'quadratic',
             'the loss is a quadratic polynomial of the noise for an affine network', tol=tol)
    return cumulants(c, b, A)


# ---- networks ---------------------------------------------------------------------------------------------------------
GM = np.array([[-0.4, 0.7], [0.2, -1.1]])
HC = np.array([0.3, -0.8])
PARAM = np.array([0.6, -1.2])


def nn_coef(t, d, p=PARAM):
    """nn(x, t, p) = p0 (1 + t) M x + p1 cos(t) c."""
    return p[0] * (1 + t) * GM[:d, :d], p[1] * np.cos(t) * HC[:d]


def nn_code(x, t, p, d, item_ndim):
    """x (n, ...) with t scalar, or with t (n,)."""
    v = x.reshape(x.shape[0], -1)
    t = jnp.asarray(t).reshape(-1, 1)
    out = p[0] * (1 + t) * (v @ jnp.asarray(GM[:d, :d]).T) + p[1] * jnp.cos(t) * jnp.asarray(HC[:d])
    return out.reshape(x.shape)


def sim_path(ref, z, x0, ts):
    xs = [z.const(x0)]
    for s, t in zip(ts[:-1], ts[1:]):
        xs.append(ref.F(t, s) * xs[-1] + np.sqrt(max(0., ref.Q(t, s))) * z.draw(len(x0)))
    return xs


def law_objective(ref, x0s, ts, loss):
    """Cumulants of the documented objective along the paths at ts."""
    n, K = len(x0s), len(ts) - 1
    d = x0s[0].size
    z = Z(n * K * d)
    terms = []
    for x0 in x0s:
        x0 = x0.ravel()
        xs = sim_path(ref, z, x0, ts)
        for k in range(1, K + 1):
            G, h = nn_coef(ts[k], d)
            nn = xs[k].lin(G) + h
            if loss == 'score':
                F, Q = ref.F(ts[k], ts[0]), ref.Q(ts[k], ts[0])
                e, w = nn + (xs[k] - F * z.const(x0)) * (1 / Q), Q
            elif loss == 'ipf':
                F = ref.F(ts[k], ts[k - 1])
                e, w = nn - (xs[k] + F * xs[k - 1] - F * xs[k]), 1.
            else:
                F, Q = ref.F(ts[k], ts[k - 1]), ref.Q(ts[k], ts[k - 1])
                e, w = nn + (xs[k] - F * xs[k - 1]) * (1 / Q), 1.
            terms.append((e, w / (n * K * d)))
    return quadratic(terms, z.n)


def mem_objective(ref, x0s, ts, t0):
    n, d = len(x0s), x0s[0].size
    z = Z(n * d)
    terms = []
    for x0, t in zip(x0s, ts):
        x0 = x0.ravel()
        F, Q = ref.F(t, t0), ref.Q(t, t0)
        x = F * z.const(x0) + np.sqrt(Q) * z.draw(d)
        G, h = nn_coef(t, d)
        terms.append((x.lin(G) + h + (x - F * z.const(x0)) * (1 / Q), Q / (n * d)))
    return quadratic(terms, z.n)


X0S = {(1,): [np.array([[0.7]]), np.array([[0.7], [-1.]]), np.array([[2.], [-1.], [0.]])],
       (2,): [np.array([[0.7, -1.]]), np.array([[0.7, -1.], [2., 0.3]])],
       (): [np.array([0.7, -1.])],
       (2, 1): [np.array([[[0.7], [-1.]], [[2.], [0.3]]])],
       (1, 2, 1): [np.array([[[[0.7], [-1.]]]])]}


def make(ref, t0, T, K, loss, random, mem, d):
    net = lambda x, t, p: nn_code(x, t, p, d, None)
    if ref.kind == 'ou':
        return make_ou_score_matching_loss(*ref.p, net, t0=t0, T=T, nsteps=K, random_times=random)
    kw = dict(save_mem=True) if mem else {}
    if loss != 'score':
        kw['loss_type'] = loss
    return make_linear_sde_law_loss(ref.sde(), net, t0=t0, T=T, nsteps=K, random_times=random, **kw)


def fixed(ck, ref, t0, T, K, shape, bi, loss, mem):
    x0s = X0S[shape][bi]
    d = int(np.prod(shape, dtype=int))
    fn = make(ref, t0, T, K, loss, False, mem, d)
    no = Noise(lambda key, p, x: fn(p, key, x), jnp.asarray(PARAM), jnp.asarray(x0s))
    got = polynomial(ck, no, jnp.asarray(PARAM), jnp.asarray(x0s))
    if mem:
        n = len(x0s)
        want = mem_objective(ref, x0s, t0 + (T - t0) * np.arange(1, n + 1) / n, t0)
    else:
        want = law_objective(ref, x0s, np.linspace(t0, T, K + 1), loss)
    ck.close(got, want, 'objective', f'cumulants of the {loss} loss ({ref.name()}, t0 = {t0}, T = {T}, {K} steps, batch '
             f'{x0s.shape})', tol=1e-6)
    ck.sample(sde=ref.name(), loss=loss, memory_saving=mem, steps=K, cumulants=got)
    z, u = no.real(5)
    ck.close(no.shipped(5, jnp.asarray(PARAM), jnp.asarray(x0s)), no.batch(jnp.asarray(PARAM), jnp.asarray(x0s), z=z[None])[0],
             'replay', 'run with a real key', tol=1e-8)
    ck.count(traces=1)


def randomt(ck, ref, t0, T, K, shape, bi, loss, mem):
    x0s = X0S[shape][bi]
    d = int(np.prod(shape, dtype=int))
    fn = make(ref, t0, T, K, loss, True, mem, d)
    args = (jnp.asarray(PARAM), jnp.asarray(x0s))
    no = Noise(lambda key, p, x: fn(p, key, x), *args)
    m = (len(x0s) if mem else K) - 1
    if no.nu != m:
        raise Inconclusive(f'{no.nu} uniform variates, {m} expected')
    pts = [0.15, 0.5, 0.85] if m < 3 else [0.2, 0.6, 0.9]
    for u in itertools.product(pts, repeat=m):
        if loss == 'ipf-score' and len(set(u)) < m:
            continue
        got = polynomial(ck, no, *args, u=u)
        inner = t0 + (T - t0) * np.sort(np.array(u, float))
        want = mem_objective(ref, x0s, np.append(inner, T), t0) if mem else \
            law_objective(ref, x0s, np.concatenate([[t0], inner, [T]]), loss)
        ck.close(got, want, 'objective-random-times', f'cumulants of the {loss} loss at random times {inner.tolist()}', tol=1e-3)
    z, u = no.real(3)
    ck.close(no.shipped(3, *args), no.batch(*args, z=z[None], u=u[None])[0], 'replay', 'run with a real key', tol=1e-8)
    ck.count(traces=1)


def boundary(ck, ref, loss, mem, single):
    """The loss stays finite at the extreme outcomes of the random times (0 is a possible outcome of a uniform draw)."""
    x0s = X0S[(1,)][1]
    K = 3

    def go():
        fn = make(ref, 0., 2., K, loss, True, mem, 1)
        x = jnp.asarray(x0s, jnp.float32 if single else float)
        p = jnp.asarray(PARAM, x.dtype)
        no = Noise(lambda key, p_, x_: fn(p_, key, x_), p, x)
        top = 1 - 2. ** (-24 if single else -53)
        m = no.nu
        for u in itertools.product([0., 0.5, top] if loss != 'ipf-score' else [0., 0.25, 0.5, top], repeat=m):
            if loss == 'ipf-score' and len(set(u)) < m:
                continue
            zs = np.array(list(itertools.product([-1., 0., 2.], repeat=min(no.nz, 4))))
            zs = np.tile(zs, (1, no.nz // zs.shape[1] + 1))[:, :no.nz]
            v = no.batch(p, x, z=zs, u=np.repeat(np.array(u)[None], len(zs), 0))
            ck.count(states=len(zs), transitions=len(zs))
            ck.require(np.isfinite(v).all(), 'finite', f'the {loss} loss is {v[~np.isfinite(v)][:1]} when the uniform draws are {u}')

    if single:
        with disable_x64():
            go()
    else:
        go()


def ties(ck, ref):
    """Two equal random times are possible (they are floats); the loss must survive them."""
    fn = make(ref, 0., 2., 3, 'ipf-score', True, False, 1)
    x = jnp.asarray(X0S[(1,)][1])
    no = Noise(lambda key, p_, x_: fn(p_, key, x_), jnp.asarray(PARAM), x)
    v = no(jnp.asarray(PARAM), x, u=np.array([0.5, 0.5]), z=np.ones(no.nz))
    ck.count(states=1, transitions=1)
    ck.require(np.isfinite(v), 'ties-not-finite', 'the ipf-score loss is not finite when two random times coincide')


def savemem_ipf(ck, ref, loss):
    """The memory-saving variant with the other loss types."""
    fn = make(ref, 0., 2., 3, loss, False, True, 1)
    x = jnp.asarray(X0S[(1,)][2])
    try:
        v = fn(jnp.asarray(PARAM), jax.random.PRNGKey(0), x)
    except Exception as e:
        ck.count(states=1, transitions=1)
        ck.require(False, 'savemem-unusable', f'the memory-saving {loss} loss raises {type(e).__name__}')
    ck.count(states=1, transitions=1)
    ck.require(np.isfinite(v), 'finite', 'finite')


# ---- iterative proportional fitting -----------------------------------------------------------------------------------
SM = np.array([[-0.7, 0.3], [-0.4, 0.5]])
SC = np.array([-0.5, 0.9])
SP = np.array([1.3, 0.4])


def s_coef(t, d, p=SP):
    return p[0] * (1 - 0.3 * t) * SM[:d, :d], p[1] * np.sin(1 + t) * SC[:d]


def s_code(x, t, p):
    d = x.reshape(x.shape[0], -1).shape[1]
    v = x.reshape(x.shape[0], -1)
    return (p[0] * (1 - 0.3 * t) * (v @ jnp.asarray(SM[:d, :d]).T) + p[1] * jnp.sin(1 + t) * jnp.asarray(SC[:d])).reshape(x.shape)


def f_code(x, t, p):
    d = x.reshape(x.shape[0], -1).shape[1]
    return nn_code(x, t, p, d, None)


def disp(t):
    return 0.5 + 0.4 * t ** 2


def ipf_disc(ck, x0s, ks, gammas):
    n, d = x0s.shape
    K = len(ks) - 1
    z = Z(n * K * d)
    terms = []
    for x0 in x0s:
        x = z.const(x0)
        for k in range(K):
            S, s = s_coef(ks[k], d)
            P, p = nn_coef(ks[k + 1], d)
            Sx = x.lin(S) + s
            xn = Sx + np.sqrt(gammas[k]) * z.draw(d)
            terms.append((xn.lin(P) + p - (xn + Sx - (xn.lin(S) + s)), 1. / (n * d)))
            x = xn
    want = quadratic(terms, z.n)
    args = (jnp.asarray(PARAM), jnp.asarray(SP), jnp.asarray(x0s), jnp.asarray(ks), jnp.asarray(gammas))
    no = Noise(lambda key, p, sp, x, k, g: ipf_loss_disc(p, sp, x, k, g, f_code, s_code, key), *args)
    got = polynomial(ck, no, *args)
    ck.close(got, want, 'ipf-discrete', f'cumulants of the discrete loss on {ks}', tol=1e-6)
    ck.sample(loss='ipf_disc', steps=list(ks), cumulants=got)


def cont_fn(v):
    return ipf_loss_cont_v if v else ipf_loss_cont


def ipf_cont(ck, v, x0s, ts):
    n = len(x0s)
    d = x0s[0].size
    K = len(ts) - 1
    z = Z(n * K * d)
    terms = []
    for x0 in x0s:
        x = z.const(x0.ravel())
        for k in range(K):
            dt = abs(ts[k + 1] - ts[k])
            S, s = s_coef(ts[k], d)
            P, p = nn_coef(ts[k + 1], d)
            fn = lambda y: y + (y.lin(S) + s) * dt
            xn = fn(x) + np.sqrt(dt) * disp(ts[k]) * z.draw(d)
            terms.append(((xn.lin(P) + p) * dt - (fn(x) - fn(xn)), 1. / (n * d * K)))
            x = xn
    want = quadratic(terms, z.n)
    args = (jnp.asarray(PARAM), jnp.asarray(SP), jnp.asarray(x0s), jnp.asarray(ts))
    no = Noise(lambda key, p, sp, x, t: cont_fn(v)(key, p, sp, x, t, f_code, s_code, disp), *args)
    got = polynomial(ck, no, *args)
    ck.close(got, want, 'ipf-continuous', f'cumulants of the continuous loss on {ts} (vectorised: {v})', tol=1e-6)
    ck.sample(loss='ipf_cont', vectorised=v, times=list(ts), cumulants=got)


def ipf_same(ck, x0s, ts):
    """The vectorised variant has the law of the sequential one, also for nonlinear functions."""
    par = lambda x, t, p: jnp.sin(p[0] * x + t) + p[1] * x ** 2 * t
    sim = lambda x, t, p: jnp.cos(p[0] * x - t) * p[1] - 0.2 * x * t
    args = (jnp.asarray(PARAM), jnp.asarray(SP), jnp.asarray(x0s), jnp.asarray(ts))
    outs = []
    for v in (False, True):
        law = explore(lambda key, x: cont_fn(v)(key, args[0], args[1], x, args[3], par, sim, disp), (x0s[None],),
                      normal=SIGNS, budget=1e7)
        ck.count(law)
        lo = np.asarray(law.out, float)
        outs.append([(law.w * lo ** k).sum() for k in range(1, 6)] + [lo.min(), lo.max()])
    ck.close(outs[1], outs[0], 'vectorised-equals-sequential', f'law of the two variants on {ts}', tol=1e-9)
    n = 0
    for s in range(4):
        k = jax.random.PRNGKey(s)
        vals = [cont_fn(v)(k, args[0], args[1], args[2], args[3], par, sim, disp) for v in (False, True)]
        ck.close(vals[1], vals[0], 'vectorised-equals-sequential', f'value with key {s}', tol=1e-9)
        n += 1
    ck.count(traces=n)


def run(ck):
    refs = REFS if ck.thorough else REFS[:2] + REFS[3:]
    for ref in refs + OUS[:2]:
        ou = ref.kind == 'ou'
        spans = [(ref.p[2], ref.p[3])] if ref.kind == 'lin' else [(0., 2.), (0.4, 1.3)]
        for (t0, T), K in itertools.product(spans, (1, 2, 3)):
            for shape in X0S:
                if ou and shape not in ((1,), (2,)):
                    continue
                for bi, x0s in enumerate(X0S[shape]):
                    if x0s.size * K > (12 if ck.thorough else 4 if ref.kind != 'lin' else 6):
                        continue
                    for loss in ('score',) if ou else ('score', 'ipf', 'ipf-score'):
                        if not ck.thorough and loss != 'score' and (K == 1 or bi == 0 and shape == (1,)):
                            continue
                        ck.case(f'{loss}-{ref.name()}-{t0}-{T}-K{K}-{shape}-{bi}', fixed, ck, ref, t0, T, K, shape, bi, loss, False)
                    if not ou and K == 2:
                        ck.case(f'mem-{ref.name()}-{t0}-{T}-{shape}-{bi}', fixed, ck, ref, t0, T, K, shape, bi, 'score', True)
        for t0, T in ((0., 1e-3), (.7, .7004)):
            if ref.kind != 'lin':
                ck.case(f'score-{ref.name()}-{t0}-{T}-short', fixed, ck, ref, t0, T, 2, (1,), 1, 'score', False)
                if not ou:
                    ck.case(f'mem-{ref.name()}-{t0}-{T}-short', fixed, ck, ref, t0, T, 2, (1,), 2, 'score', True)
        t0, T = spans[-1]
        for loss in ('score',) if ou else ('score', 'ipf', 'ipf-score'):
            ck.case(f'random-{loss}-{ref.name()}-K2', randomt, ck, ref, t0, T, 2, (2,), 0, loss, False)
            ck.case(f'random-{loss}-{ref.name()}-K3', randomt, ck, ref, t0, T, 3, (1,), 1, loss, False)
        if not ou:
            ck.case(f'random-mem-{ref.name()}', randomt, ck, ref, t0, T, 2, (1,), 2, 'score', True)
            ck.case(f'random-mem2-{ref.name()}', randomt, ck, ref, t0, T, 2, (2,), 1, 'score', True)
        if not (ref.kind == 'lin' and ref.p[2:] != (0., 2.)):
            for single in (False, True):
                ck.case(f'boundary-score-{ref.name()}-{single}', boundary, ck, ref, 'score', False, single)
                if not ou:
                    ck.case(f'boundary-mem-{ref.name()}-{single}', boundary, ck, ref, 'score', True, single)
                    ck.case(f'boundary-ipf-{ref.name()}-{single}', boundary, ck, ref, 'ipf', False, single)
    ck.case('ties-ipf-score', ties, ck, REFS[0])
    for loss in ('ipf', 'ipf-score'):
        ck.case(f'savemem-{loss}', savemem_ipf, ck, REFS[0], loss)
    a = np.array([[0.7], [-1.]])
    b = np.array([[0.7, -1.]])
    c = np.array([[0.7, -1.], [0.2, 1.5]])
    for i, x0s in enumerate((a, b, c, a[:1])):
        for ks, gam in (((0., 1.), (0.3,)), ((0., 1., 2.), (0.3, 0.7)), ((2., 1., 0.), (0.2, 0.9)), ((0., 1., 2., 3.), (0.1, 0.4, 0.9))):
            if x0s.size * (len(ks) - 1) <= 8:
                ck.case(f'ipf-disc-{i}-{ks}', ipf_disc, ck, x0s, ks, gam)
        for ts in ((0., 0.5), (0., 0.3, 1.), (1., 0.3, 0.), (0.2, 0.5, 0.6, 1.1), (1.1, 0.9, 0.3, 0.1)):
            if x0s.size * (len(ts) - 1) <= 8:
                for v in (False, True):
                    ck.case(f'ipf-cont-{i}-{ts}-{v}', ipf_cont, ck, v, x0s, ts)
                ck.case(f'ipf-same-{i}-{ts}', ipf_same, ck, x0s, ts)
    e = c.reshape(2, 2, 1)
    for v in (False, True):
        ck.case(f'ipf-cont-image-{v}', ipf_cont, ck, v, e, (0., 0.4, 1.))
    ck.case('ipf-same-image', ipf_same, ck, e, (0., 0.4, 1.))
    p08.keys(ck, 'loss-')
    ck.bound('networks affine in the state, batches up to 3, up to 3 steps, 5 state shapes, increasing and decreasing grids, up to '
             '6 (thorough: 12) normals; random times over all 3-point combinations and their extreme outcomes')
    ck.assume('random times are compared up to the small offset the losses keep from the start time (tolerance 1e-3)')

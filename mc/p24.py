"""The image restoration scripts hand the samplers the model that the trained score and the image mask define.

Every script is executed in process (mc/scripts.py) on a synthetic data set, with a known score function in place of the
trained network and the samplers replaced by recorders.  Everything handed over is compared with the time reversal of the
noising process, pixel by pixel; the histories of sampler calls and of saved arrays are compared with the ones promised."""
import zlib
import numpy as np
import jax
import jax.numpy as jnp
from mc import rng
from mc.explore import Noise, affine
from mc.report import Violation
from mc.sde import Ref
from mc.scripts import execute, Traced, Wave
from mc.p23 import (tok, gibbs_stub, pmcmc_stub, em_stub, first_call, check_keys, lognormal, check_noising, eq, check_sde)
from fbs.samplers.smc import pmcmc_kernel, twisted_smc
from fbs.samplers.gibbs import gibbs_kernel, gibbs_init
from fbs.sdes.simulators import euler_maruyama
from fbs.nn.models import make_st_nn
from fbs.data.images import MNISTRestore, CelebAHQRestore

SDES = dict(const=lambda T: Ref('const', -0.5, 1.), lin=lambda T: Ref('lin', 0.02, 5., 0., T))
PARAM, EMA = np.array([1.1, 0.7, 0.5]), np.array([0.8, -0.4, 0.3])
K = 3
SEED = 8
LW = np.array([0.5, 0.25, 0.125, 0.0625, 0.03125, 0.02, 0.01125])


def score(x, t, p):
    """In place of the trained network: couples the pixels of two rows and the channels, depends on the time."""
    return (p[0] * (-x + 0.3 * (1. + t) * jnp.roll(x, 1, -3) + 0.2 * jnp.roll(x, 1, -1)) + p[1] * 0.2 * jnp.cos(3. * t)
            + p[2] * 0.3 * jnp.sin(x))


def nn_stub(a, n):
    return jnp.zeros(3), None, score


def init_stub(a, n):
    return tok(20 + n, *a['x0_shape']), tok(40 + n, len(a['ts']), *a['x0_shape'])


def twisted_stub(a, n):
    N = a['nparticles']
    u0 = a['init_sampler'](rng.W.root(('twisted', n)), N)
    w = (LW if N <= len(LW) else np.arange(1., N + 1))[:N]
    w = w / w.sum()
    return tok(n, N, *u0.shape[1:]), jnp.log(jnp.asarray(np.roll(w, n)))


STUBS = [(make_st_nn, nn_stub), (gibbs_init, init_stub), (gibbs_kernel, gibbs_stub), (pmcmc_kernel, pmcmc_stub), (twisted_smc, twisted_stub)]


class Task:
    """A data set, a task, and what the script is asked to do."""

    def __init__(self, kind, size, dataset='celeba-8', rnd=False, sde='lin', ema=False):
        self.kind, self.size, self.dataset, self.rnd, self.sde, self.ema = kind, size, dataset, rnd, sde, ema
        self.res, self.c = (28, 1) if dataset == 'mnist' else (int(dataset.split('-')[1]), 3)
        self.T = 2.
        self.ref = SDES[sde](self.T)
        self.p = EMA if ema else PARAM
        self.dim = self.res ** 2 * self.c

    def files(self):
        n = 10000 if self.dataset == 'mnist' else 1003
        i, j = np.arange(n)[:, None], np.arange(self.dim)[None]
        x = (np.sin(0.7 * i + 1.3 * j + 0.01 * i * (j % 17)) * 0.8 + 0.5).astype(np.float32)
        self.data = x.reshape(n, self.res, self.res, self.c)
        if self.dataset == 'mnist':
            f = {'mnist.npz': dict(X_test=x, X=None)}
        else:
            f = {f'celeba_hq{self.res}.npy': self.data}
        ck = dict(param=PARAM, ema_param=EMA)
        f[f'checkpoints/{self.dataset}_{self.sde}_77.npz'] = ck
        return f

    def argv(self, **kw):
        a = ['--dataset', self.dataset, '--sde', self.sde, '--test_nsteps', K, '--test_epoch', 77, '--test_seed', SEED]
        a += ['--rect_size', self.size] if self.kind == 'inpainting' else ['--rate', self.size]
        a += ['--rnd_mask'] if self.rnd else []
        a += ['--test_ema'] if self.ema else []
        for k, v in kw.items():
            a += ([f'--{k}'] if v is True else [] if v is False or v is None else [f'--{k}', v])
        return a

    def path(self, what=''):
        return f'experiments/imgs/{self.kind}{what}.py'

    def nobs(self):
        n = self.res ** 2
        return n - self.size ** 2 if self.kind == 'inpainting' else n // self.size ** 2

    def name(self):
        return f'{self.kind}-{self.dataset}-{self.size}{"-rm" if self.rnd else ""}-{self.sde}{"-ema" if self.ema else ""}'


def digit(name, sig, radix):
    return zlib.crc32((name + str(sig)).encode()) % radix


def double(cls):
    """The data sets are read in single precision: the same values in double precision, as everything else here."""
    init = cls.__init__

    def f(self, *a, **k):
        init(self, *a, **k)
        if getattr(self, 'xs', None) is not None and self.xs.dtype == jnp.float32:
            self.xs = self.xs.astype(jnp.float64)

    return cls, '__init__', f


PATCH = [double(MNISTRestore), double(CelebAHQRestore)]


def go(task, path, argv, digits=digit, stubs=STUBS, **kw):
    return execute(path, argv, stubs=stubs, files=task.files(), digits=digits, loose=True, patch=PATCH, **kw)


class Split:
    """The index maps of a mask."""

    def __init__(self, mask, task):
        self.un, self.ob = np.asarray(mask.unobs_inds_ravelled), np.asarray(mask.obs_inds_ravelled)
        self.task = task

    def parts(self, z):
        r = np.asarray(z).reshape(*np.shape(z)[:-3], -1, self.task.c)
        return r[..., self.un, :], r[..., self.ob, :]

    def join(self, u, v):
        u, v = np.asarray(u), np.asarray(v)
        lead = np.broadcast_shapes(u.shape[:-2], v.shape[:-2])
        r = np.full((*lead, self.task.res ** 2, self.task.c), np.nan)
        r[..., self.un, :] = u
        r[..., self.ob, :] = v
        return r.reshape(*lead, self.task.res, self.task.res, self.task.c)


def mask_name(args):
    """The name under which a sampler is given the mask, whatever the script calls it."""
    names = [n for n, v in args.items() if hasattr(v, 'unobs_inds_ravelled')]
    if len(names) != 1:
        raise Violation('mask', f'a sampler is given {len(names)} masks')
    return names[0]


def the_mask(args):
    return args[mask_name(args)]


def pat(n, *shape):
    """Fixed values of either sign."""
    k = int(np.prod(shape, dtype=int))
    i = np.arange(k) + 31. * n
    return (1.2 * np.sin(1.7 * i + 0.3 * n) + 0.2 * np.cos(0.01 * i * i)).reshape(shape)


class Rev:
    """One Euler step of the time reversal with the given score."""

    def __init__(self, task, drift=None):
        self.t = task
        self.f = drift or (lambda z, s: -task.ref.a(s) * z + task.ref.b2(s) * np.asarray(score(jnp.asarray(z), s, task.p)))

    def mean(self, z, t, dt):
        return z + self.f(z, self.t.T - t) * dt

    def std(self, t, dt):
        return np.sqrt(self.t.ref.b2(self.t.T - t) * dt)


# ---- what is handed over ----------------------------------------------------------------------------------------------------
def grid_of(ck, c, T):
    ts = np.asarray(c.ts)
    ck.close(ts, np.linspace(0., T, K + 1), 'ts', 'time grid', tol=1e-6)
    return ts


def check_model(ck, c, task, rev, sp, mask, logpdf=True, n=2):
    ts = np.asarray(c.ts)
    kw = {mask_name(c.args): mask}
    nx, ny = (len(sp.un), task.c), (len(sp.ob), task.c)
    us = pat(1, n, *nx)
    no = None
    for k in range(K):
        t, dt = float(ts[k]), float(ts[k + 1] - ts[k])
        for q, v in enumerate((pat(2, *ny), pat(3 + k, *ny))):
            mu, mv = sp.parts(rev.mean(sp.join(us, v), t, dt))
            sd = rev.std(t, dt)
            a = (jnp.asarray(us), jnp.asarray(v), jnp.asarray(t))
            if c.args.get('transition_sampler') is not None and (q == 0 or task.dim < 300):
                no = no or Noise(lambda key, u, v_, t_: c.transition_sampler(u, v_, t_, key, **kw), *a)
                cc, J = affine(ck, no, *a, what='the transition')
                ck.close(cc.reshape(mu.shape), mu, 'transition-mean', f'mean of the transition from step {k}', tol=1e-6)
                ck.close(J @ J.T, sd ** 2 * np.eye(J.shape[0]), 'transition-cov', f'covariance of the transition from step {k}', tol=1e-6)
            for w in (mu[0] + 0.3 * pat(5, *nx), pat(6, *nx)):
                if logpdf and c.args.get('transition_logpdf') is not None:
                    ck.close(c.transition_logpdf(jnp.asarray(w), *a, **kw), lognormal(w.ravel(), mu.reshape(n, -1), sd), 'transition-density',
                             f'transition density at step {k}', tol=1e-5)
            for w in (mv[0] + 0.3 * pat(7, *ny), pat(8, *ny)):
                ck.close(c.likelihood_logpdf(jnp.asarray(w), *a, **kw), lognormal(w.ravel(), mv.reshape(n, -1), sd), 'measurement-density',
                         f'measurement density at step {k}', tol=1e-5)
        ck.count(states=8, transitions=2)


def check_unpack(ck, f, sp, mask, task):
    for lead in ((), (2,)):
        z = pat(4, *lead, task.res, task.res, task.c)
        for a, b in zip(f(jnp.asarray(z), **mask), sp.parts(z)):
            eq(ck, a, b, 'unpack', 'the parts of an image')


def image_of(ck, task, r, c, k, y0):
    """The k-th test image, its mask and its observed part, from the record."""
    mask = the_mask(c.args)
    sp = Split(mask, task)
    ck.require(len(sp.ob) == task.nobs() and len(sp.un) + len(sp.ob) == task.res ** 2
               and len(set(sp.un.tolist()) | set(sp.ob.tolist())) == task.res ** 2, 'mask', f'the mask observes {len(sp.ob)} pixels')
    if task.kind == 'inpainting':
        i, j = np.divmod(np.sort(sp.un), task.res)
        ck.require(i.max() - i.min() == task.size - 1 and j.max() - j.min() == task.size - 1, 'mask', 'the unobserved part is not a square')
    else:
        i, j = np.divmod(sp.ob, task.res)
        blocks = set(zip((i // task.size).tolist(), (j // task.size).tolist()))
        ck.require(len(blocks) == len(sp.ob), 'mask', 'not one pixel per block is observed')
        if not task.rnd:
            ck.require((i % task.size == task.size // 2).all() and (j % task.size == task.size // 2).all(), 'mask', 'the fixed mask observes the middle')
    trues = [s for s in r.saved.values() if isinstance(s, dict) and 'test_img' in s]
    hits = [s for s in trues if np.array_equal(sp.parts(s['test_img'])[1], np.asarray(y0))
            and np.array_equal(s.get('arr_3' if task.kind == 'inpainting' else 'arr_1', ()), sp.un)]
    ck.require(len(hits) == 1, 'true', f'image {k}: no saved original has this observed part and mask')
    img = hits[0]['test_img']
    for n, v in enumerate(mask):
        ck.require(np.array_equal(hits[0].get(f'arr_{n}'), np.asarray(v)), 'true', 'the saved mask is not the one of the image')
    row = [i for i in range(len(task.data)) if np.array_equal(task.data[i], img)]
    ck.require(len(row) == 1, 'image', 'the test image is not an image of the data set')
    if task.dataset != 'mnist':
        ck.require(row[0] < 1000, 'image', 'the test image does not belong to the test part')
    return sp, mask, img, row[0]


def clip(x):
    return np.clip(np.asarray(x, float), 0., 1.)


def check_pictures(ck, task, r, want):
    """Every picture saved is one of the expected ones, and every expected one is saved."""
    sq = lambda x: clip(x)[..., 0] if task.c == 1 else clip(x)
    got = [np.asarray(v, float) for v in r.images.values()]
    ck.require(len(r.order) == len(set(r.order)), 'saved', 'a file is written twice')
    for name, w in want:
        w = sq(w)
        ck.require(any(g.shape == w.shape and np.allclose(g, w, atol=1e-6) for g in got), 'picture', f'no picture of {name}')
    for n, g in r.images.items():
        ck.require(any(np.shape(g) == sq(w).shape and np.allclose(g, sq(w), atol=1e-6) for _, w in want), 'picture', f'{n} is not an expected picture')


def results(ck, r, task, n):
    out = [v for v in r.saved.values() if not isinstance(v, dict) and v.ndim == 4]
    for v in out:
        ck.require(v.shape == (n, task.res, task.res, task.c), 'saved', f'results of shape {v.shape}')
    return out


def corrupt_pictures(task, sp, img, y0, k, supr):
    out = [(f'image {k}', img), (f'the corrupted image {k}', sp.join(np.zeros((len(sp.un), task.c)), y0))]
    if supr:
        m = task.res // task.size
        out.append((f'the low-resolution image {k}', np.asarray(y0).reshape(m, m, task.c)))
    return out


def check_loaded(ck, r, task):
    names = [n for n in r.loaded if 'checkpoint' in n]
    ck.require(names == [f'./checkpoints/{task.dataset}_{task.sde}_77.npz'], 'checkpoint', f'loads {names}')
    a = first_call(r, 'make_st_nn').args
    ck.require(tuple(a['dim_in']) == (task.res, task.res, task.c), 'network', f'the network is made for images of shape {a["dim_in"]}')
    nn = a['nn']
    ck.require(abs(nn.dt - task.T / 200) < 1e-12 and nn.dim == 64 and nn.upsampling == 'pixel_shuffle', 'network',
               'the network is not the one that is trained')


def common(ck, task, r, c, logpdf=True):
    ts = grid_of(ck, c, task.T)
    rev = Rev(task)
    mask = the_mask(c.args)
    sp = Split(mask, task)
    check_loaded(ck, r, task)
    check_model(ck, c, task, rev, sp, mask, logpdf)
    if c.args.get('unpack') is not None:
        check_unpack(ck, c.unpack, sp, {mask_name(c.args): mask}, task)
    check_sde(ck, task.ref, c.sde, ts)
    return ts, sp, mask


def check_fwd(ck, c, task, sp, mask, ts):
    x, y = pat(1, len(sp.un), task.c), pat(2, len(sp.ob), task.c)
    check_noising(ck, task.ref, lambda key, a, b: c.fwd_sampler(key, a, b, **{mask_name(c.args): mask}), (jnp.asarray(x), jnp.asarray(y)), sp.join(x, y).ravel(),
                  ts, 'forward sampler')


# ---- scripts ----------------------------------------------------------------------------------------------------------------
NY, NS = 2, 3


def gibbs(ck, task, method, marg, init):
    """gibbs, gibbs-eb, gibbs-eb-ef, filter."""
    N = 4
    argv = task.argv(method=method, marg=marg, init_method=init, nparticles=N, nsamples=NS, ny0s=NY)
    r = go(task, task.path(), argv)
    cs = r.of('gibbs_init' if method == 'filter' else 'gibbs_kernel')
    c = first_call(r, cs[0].name if cs else 'gibbs_kernel')
    ts, sp, mask = common(ck, task, r, c)
    if method != 'filter' or task.dim < 300:
        if task.dim < 300:
            check_fwd(ck, c, task, sp, mask, ts)
    inits = r.of('gibbs_init')
    for q in inits + r.of('gibbs_kernel'):
        ck.require(q.nparticles == N, 'nparticles', f'{q.name} is given {q.nparticles} particles')
        ck.require(bool(q.marg_y) == marg, 'flag', f'{q.name} is given marg_y={q.marg_y}')
        if q.name == 'gibbs_init':
            ck.require(q.method == ('filter' if method == 'filter' else init), 'flag', f'gibbs_init is given the method {q.method}')
            ck.require(tuple(q.x0_shape) == (len(sp.un), task.c), 'shape', f'gibbs_init is given the shape {q.x0_shape}')
        else:
            ck.require(bool(q.explicit_backward) == ('eb' in method) and bool(q.explicit_final) == ('ef' in method), 'flag',
                       f'explicit_backward={q.explicit_backward} and explicit_final={q.explicit_final} with the method {method}')
    if inits and inits[0] is not c:
        check_model(ck, inits[0], task, Rev(task), sp, the_mask(inits[0].args), n=1)
    want, rows = [], []
    res = results(ck, r, task, NS)
    ck.require(len(res) == NY, 'saved', f'{len(res)} result files for {NY} images')
    for k in range(NY):
        if method == 'filter':
            mine = inits[k * NS:(k + 1) * NS]
            ck.require(len(inits) == NY * NS, 'calls', f'{len(inits)} filter runs')
        else:
            ck.require(len(inits) == NY and len(cs) == NY * NS, 'calls', f'{len(inits)} initialisations, {len(cs)} iterations')
            mine = cs[k * NS:(k + 1) * NS]
        y0 = mine[0].y0
        sp, mask, img, row = image_of(ck, task, r, mine[0], k, y0)
        rows.append(row)
        want += corrupt_pictures(task, sp, img, y0, k, task.kind == 'supr')
        if method != 'filter':
            o = inits[k]
            eq(ck, o.y0, y0, 'y0', 'the initialisation has another observation')
            ck.require(np.array_equal(the_mask(o.args).unobs_inds_ravelled, sp.un), 'mask', 'the initialisation has another mask')
            start = sp.join(o.out[0], y0)
            want.append((f'the initial image {k}', start))
            ck.require(any(isinstance(v, np.ndarray) and v.ndim == 3 and np.allclose(v, start, atol=1e-3) for v in r.saved.values()), 'saved',
                       'the initial image is not saved')
        for i, q in enumerate(mine):
            eq(ck, q.y0, y0, 'y0', f'run {i} of image {k} has another observation')
            ck.require(np.array_equal(the_mask(q.args).unobs_inds_ravelled, sp.un), 'mask', f'run {i} of image {k} has another mask')
            if method != 'filter':
                p = mine[i - 1].out if i else (*inits[k].out, np.zeros(K + 1))
                for a, b, w in ((q.x0, p[0], 'state'), (q.us_star, p[1], 'path'), (q.bs_star, p[2], 'labels')):
                    eq(ck, a, b, 'thread', f'iteration {i} of image {k} does not start from its last {w}')
            x = sp.join(q.out[0], y0)
            want.append((f'sample {i} of image {k}', x))
            ck.close(res[k][i], x, 'saved-order', f'saved sample {i} of image {k}', tol=1e-3)
    check_pictures(ck, task, r, want)
    check_keys(ck, r, method)
    # the k-th image does not depend on where one starts from, nor on the method
    q = go(task, task.path(), task.argv(method='filter', nparticles=2, nsamples=1, ny0s=NY, start_from=1))
    _, _, _, row = image_of(ck, task, q, first_call(q, 'gibbs_init'), 1, first_call(q, 'gibbs_init').y0)
    ck.require(row == rows[1] and len(q.of('gibbs_init')) == NY - 1, 'start-from', f'starting from the second image gives image {row} instead of {rows[1]}')


def check_ref_sampler(ck, f, y, shape, N=2):
    no = Noise(lambda key, v: f(key, v, N), jnp.asarray(y))
    c, J = affine(ck, no, jnp.asarray(y), what='reference sampler')
    ck.close(c, np.zeros_like(c), 'ref', 'mean of the reference sampler')
    ck.close(J @ J.T, np.eye(len(c)), 'ref', 'covariance of the reference sampler')
    ck.require(len(c) == N * int(np.prod(shape)), 'ref', f'the reference sampler gives {len(c)} values')


def pmcmc(ck, task, delta):
    N = 4
    method = 'pmcmc' + (f'-{delta}' if delta else '')
    argv = task.argv(method=method, nparticles=N, nsamples=NS, ny0s=NY)
    r = go(task, task.path(), argv)
    cs = r.of('pmcmc_kernel')
    c = first_call(r, 'pmcmc_kernel')
    ck.require(len(cs) == NY * NS, 'calls', f'{len(cs)} iterations')
    ts, sp, mask = common(ck, task, r, c, False)
    ck.require(c.delta == delta if delta is None else c.delta is not None and abs(c.delta - delta) < 1e-12, 'flag', f'delta is {c.delta}')
    y = pat(2, len(sp.ob), task.c)
    check_noising(ck, task.ref, c.fwd_ys_sampler, (jnp.asarray(y),), y.ravel(), ts, 'forward sampler')
    check_ref_sampler(ck, c.ref_sampler, y, (len(sp.un), task.c))
    want = []
    res = results(ck, r, task, NS)
    ck.require(len(res) == NY, 'saved', f'{len(res)} result files')
    for k in range(NY):
        mine = cs[k * NS:(k + 1) * NS]
        y0 = mine[0].y0
        sp, mask, img, _ = image_of(ck, task, r, mine[0], k, y0)
        want += corrupt_pictures(task, sp, img, y0, k, task.kind == 'supr')
        eq(ck, mine[0].ys[0], y0, 'start', 'the first path does not start at the observation')
        ck.require(np.shape(mine[0].uT) == (len(sp.un), task.c) and np.shape(mine[0].ys) == (K + 1, len(sp.ob), task.c), 'start', 'shapes of the first state')
        for i, q in enumerate(mine):
            ck.require(q.nparticles == N, 'nparticles', f'{q.nparticles} particles')
            eq(ck, q.y0, y0, 'y0', f'iteration {i} of image {k} has another observation')
            ck.require(np.array_equal(the_mask(q.args).unobs_inds_ravelled, sp.un), 'mask', f'iteration {i} of image {k} has another mask')
            if i:
                p = mine[i - 1].out
                for a, b, w in ((q.uT, p[0], 'state'), (q.log_ell, p[1], 'likelihood estimate'), (q.ys, p[2], 'path')):
                    eq(ck, a, b, 'thread', f'iteration {i} of image {k} does not start from its last {w}')
            x = sp.join(q.out[0], y0)
            want.append((f'sample {i} of image {k}', x))
            ck.close(res[k][i], x, 'saved-order', f'saved sample {i} of image {k}', tol=1e-3)
    check_pictures(ck, task, r, want)
    check_keys(ck, r, method)
    # law of the first measurement path
    tr = Traced(task.path(), task.argv(method=method, nparticles=N, nsamples=1, ny0s=1), lambda q: q.of('pmcmc_kernel')[0].ys, stubs=STUBS,
                files=task.files(), digits=digit, loose=True, buffers=True, patch=PATCH)
    cc, J = tr.affine(ck, 'the first measurement path')
    m, C = task.ref.path_law(np.zeros(1), ts)
    y0 = np.asarray(cs[0].y0, float).ravel()
    ck.close(cc.reshape(K + 1, -1), m[:, None] * y0[None], 'start', 'mean of the first measurement path', tol=1e-6)
    J = J.reshape(-1, J.shape[-1])
    ck.close(J @ J.T, np.kron(C, np.eye(len(y0))), 'start', 'covariance of the first measurement path', tol=1e-6)


def twisted(ck, task):
    N = 2
    argv = task.argv(nparticles=N, nsamples=NS, ny0s=NY)
    path = task.path('_twisted')
    r = go(task, path, argv)
    cs = r.of('twisted_smc')
    c = first_call(r, 'twisted_smc')
    ck.require(len(cs) == NY * NS, 'calls', f'{len(cs)} runs')
    ts = grid_of(ck, c, task.T)
    check_loaded(ck, r, task)
    shape = (task.res, task.res, task.c)
    check_ref_sampler(ck, lambda key, _, n: c.init_sampler(key, n), np.zeros(1), shape)
    sp, mask, img, _ = image_of(ck, task, r, c, 0, c.y)
    kw = {mask_name(c.args): mask}
    rev = Rev(task)
    us, w, y = pat(1, N, *shape), pat(1, N, *shape) + 0.4 * pat(2, N, *shape), pat(3, len(sp.ob), task.c)
    flat = lambda z: np.asarray(z).reshape(N, -1)

    def drift(z, s):
        return -task.ref.a(s) * z + task.ref.b2(s) * score(z, s, task.p)

    def log_twist(z, t, dt):
        s = task.T - t
        est = (z + drift(z, s) * dt).reshape(-1, task.c)[sp.ob]
        var = task.ref.F(s, 0.) ** 2 * 0.06 + (task.ref.Q(s, 0.) if s > 1e-9 else 0.)
        return jnp.sum(-0.5 * (jnp.asarray(y) - est) ** 2 / var - 0.5 * np.log(2 * np.pi * var))

    no = None
    for k in range(K + 1):
        t, dt = float(ts[k]), task.T / K
        tw = np.array([float(log_twist(jnp.asarray(u), t, dt)) for u in us])
        A = (jnp.asarray(us), jnp.asarray(t))
        ck.close(c.twisting_logpdf(jnp.asarray(y), *A, **kw), tw, 'twisting', f'twisting function at step {k}', tol=1e-5)
        ck.count(states=N, transitions=1)
        if k == K:
            break
        sd = rev.std(t, dt)
        ck.close(c.transition_logpdf(jnp.asarray(w), *A), lognormal(flat(w), flat(rev.mean(us, t, dt)), sd), 'transition-density',
                 f'transition density at step {k}', tol=1e-5)
        g = np.stack([np.asarray(jax.grad(log_twist)(jnp.asarray(u), t, dt)) for u in us])
        prop = rev.mean(us, t, dt) + sd ** 2 * g
        no = no or Noise(lambda key, u, t_, y_: c.twisting_prop_sampler(key, u, t_, y_, **kw), *A, jnp.asarray(y))
        cc, J = affine(ck, no, *A, jnp.asarray(y), what='twisted proposal')
        ck.close(cc.reshape(us.shape), prop, 'proposal-mean', f'mean of the twisted proposal at step {k}', tol=1e-6)
        ck.close(J @ J.T, sd ** 2 * np.eye(len(cc)), 'proposal-cov', f'covariance of the twisted proposal at step {k}', tol=1e-6)
        ck.close(c.twisting_prop_logpdf(jnp.asarray(w), *A, jnp.asarray(y), **kw), lognormal(flat(w), flat(prop), sd), 'proposal-density',
                 f'density of the twisted proposal at step {k}', tol=1e-5)
    want, res = [], results(ck, r, task, NS)
    ck.require(len(res) == NY, 'saved', f'{len(res)} result files')
    for k in range(NY):
        mine = cs[k * NS:(k + 1) * NS]
        sp, _, img, _ = image_of(ck, task, r, mine[0], k, mine[0].y)
        want += corrupt_pictures(task, sp, img, mine[0].y, k, task.kind == 'supr')
        for i, q in enumerate(mine):
            ck.require(q.nparticles == N, 'nparticles', f'{q.nparticles} particles')
            eq(ck, q.y, mine[0].y, 'y0', f'run {i} of image {k} has another observation')
            ck.require(np.array_equal(the_mask(q.args).unobs_inds_ravelled, sp.un), 'mask', f'run {i} of image {k} has another mask')
            hit = [u for u in np.asarray(q.out[0]) if np.allclose(res[k][i], u, atol=1e-3)]
            ck.require(len(hit) == 1, 'saved-order', f'sample {i} of image {k} is not a particle of its run')
            want.append((f'sample {i} of image {k}', hit[0]))
    check_pictures(ck, task, r, want)
    check_keys(ck, r, 'twisted')
    # selection of the saved particle
    M, got = 7, {}
    for d in range(M):
        q = go(task, path, task.argv(nparticles=M, nsamples=1, ny0s=1), digits=lambda name, sig, radix: d if radix == M else digit(name, sig, radix))
        ck.require(q.radices.count(M) == 1, 'choices', 'one particle is chosen')
        p = np.asarray(q.of('twisted_smc')[0].out[0])
        s = results(ck, q, task, 1)[0][0]
        i = [j for j in range(M) if np.allclose(p[j], s, atol=1e-3)]
        ck.require(len(i) == 1, 'selection', 'the saved image is not a particle')
        got[i[0]] = got.get(i[0], 0.) + q.weight
    tot = sum(got.values())
    w = np.exp(np.asarray(q.of('twisted_smc')[0].out[1]))
    ck.close([got.get(i, 0.) / tot for i in range(M)], w, 'selection', 'the particles are not chosen with their weights')


def csgm(ck, task):
    path = task.path('_csgm')
    lin = [(make_st_nn, lambda a, n: (jnp.zeros(3), None, lambda x, t, p: score(x, t, jnp.asarray([1., 1., 0.]) * p)))]
    r = go(task, path, task.argv(nsamples=NS, ny0s=NY), stubs=lin)
    check_loaded(ck, r, task)
    check_keys(ck, r, 'csgm')
    res = results(ck, r, task, NS)
    ck.require(len(res) == NY, 'saved', f'{len(res)} result files')
    trues = [s for s in r.saved.values() if isinstance(s, dict) and 'test_img' in s]
    ck.require(len(trues) == NY, 'true', 'the originals are saved')
    fields = (3, 4) if task.kind == 'inpainting' else (1, 2)
    want = []

    for k in range(NY):
        sp = Split(mask_of(trues[k], fields), task)
        y0 = sp.parts(trues[k]['test_img'])[1]
        want += corrupt_pictures(task, sp, trues[k]['test_img'], y0, k, task.kind == 'supr')
        for i in range(NS):
            ck.close(sp.parts(res[k][i])[1], y0, 'observed', f'sample {i} of image {k} keeps the observed pixels', tol=1e-6)
            want.append((f'sample {i} of image {k}', res[k][i]))
            for j in range(i):
                ck.require(not np.allclose(res[k][i], res[k][j]), 'saved-order', 'two samples are the same')
    check_pictures(ck, task, r, want)
    tr = Traced(path, task.argv(nsamples=1, ny0s=1), lambda q: results(ck, q, task, 1)[0][0], stubs=lin, files=task.files(), digits=digit, loose=True,
                buffers=True, patch=PATCH)
    cc, J = tr.affine(ck, 'the sample')
    q = go(task, path, task.argv(nsamples=1, ny0s=1), stubs=lin)
    true = [s for s in q.saved.values() if isinstance(s, dict) and 'test_img' in s][0]
    sp = Split(mask_of(true, fields), task)
    y0 = np.asarray(sp.parts(true['test_img'])[1], float).ravel()
    m, C = csgm_law(task, sp, y0)
    u = lambda z: sp.parts(np.moveaxis(z, -1, 0) if z.ndim == 4 else z)[0]
    ck.close(u(cc).ravel(), m, 'law-mean', 'mean of the sample', tol=1e-6)
    Ju = u(J).reshape(J.shape[-1], -1).T
    ck.close(Ju @ Ju.T, C, 'law-cov', 'covariance of the sample', tol=1e-6)


def mask_of(saved, fields):
    class M:
        unobs_inds_ravelled, obs_inds_ravelled = saved[f'arr_{fields[0]}'], saved[f'arr_{fields[1]}']
    return M


def csgm_law(task, sp, y0):
    """Euler-Maruyama of the reverse SDE of the unobserved pixels, the observed ones noised afresh at every step."""
    p = task.p * np.array([1., 1., 0.])
    shape = (task.res, task.res, task.c)
    nu, nv = len(sp.un) * task.c, len(sp.ob) * task.c
    cols = (sp.un[:, None] * task.c + np.arange(task.c)).ravel(), (sp.ob[:, None] * task.c + np.arange(task.c)).ravel()
    m, C = np.zeros(nu), np.eye(nu)
    dt = task.T / K
    for k in range(K):
        s = task.T - k * dt
        f = lambda z: score(z.reshape(shape), s, p).ravel()
        S = np.asarray(jax.jacfwd(f)(jnp.zeros(task.dim)))
        b = np.asarray(f(jnp.zeros(task.dim)))[cols[0]]
        Suu, Suv = S[np.ix_(cols[0], cols[0])], S[np.ix_(cols[0], cols[1])]
        F, Q, a, g2 = task.ref.F(s, 0.), task.ref.Q(s, 0.), task.ref.a(s), task.ref.b2(s)
        A = (1. - a * dt) * np.eye(nu) + g2 * dt * Suu
        B = g2 * dt * Suv
        m = A @ m + B @ (F * y0) + g2 * dt * b
        C = A @ C @ A.T + Q * B @ B.T + g2 * dt * np.eye(nu)
    return m, C


# ---- Schroedinger bridge on images ------------------------------------------------------------------------------------------
FWD, BWD = np.array([0.9, 0.3, 0.2]), np.array([-0.5, 0.6, 0.4])


class SbTask(Task):
    def __init__(self, rate, sde):
        super().__init__('supr', rate, 'mnist', sde=sde)
        self.T = 0.5
        self.ref = SDES[sde](0.5)

    def files(self):
        f = super().files()
        return {'mnist.npz': f['mnist.npz'], f'checkpoints/sb_mnist_{self.sde}_4.npz': dict(param_fwd=FWD, param_bwd=BWD)}

    def argv(self, **kw):
        a = ['--rate', self.size, '--sde', self.sde, '--test_nsteps', K, '--sb_step', 4, '--test_seed', SEED]
        for k, v in kw.items():
            a += [f'--{k}', v]
        return a


def sb_start(u, y0, sp, task, name):
    if name == 'blank':
        return np.zeros_like(u)
    m = task.res // task.size
    return sp.parts(np.asarray(jax.image.resize(jnp.asarray(np.asarray(y0).reshape(m, m, 1)), (28, 28, 1), 'linear')))[0]


def sb(ck, task, method):
    N, path, yid = 2, 'experiments/sb_imgs/supr.py', 2
    stubs = STUBS + [(euler_maruyama, em_stub)]
    r = go(task, path, task.argv(method=method, nparticles=N, nsamples=NS, y0_id=yid), stubs=stubs)
    inits, cs = r.of('gibbs_init'), r.of('gibbs_kernel')
    c = cs[0] if cs else first_call(r, 'gibbs_init')
    ts = grid_of(ck, c, task.T)
    ck.require([n for n in r.loaded if 'checkpoint' in n][:1] == [f'./checkpoints/sb_mnist_{task.sde}_4.npz'], 'checkpoint', f'loads {r.loaded}')
    nn = first_call(r, 'make_st_nn').nn
    ck.require(abs(nn.dt - 0.5 / 200) < 1e-12 and nn.dim == 64 and nn.upsampling == 'pixel_shuffle', 'network', 'the network is not the one that is trained')
    check_sde(ck, task.ref, c.sde, ts)
    sp, mask, img, row = image_of(ck, task, r, c, 0, c.y0)
    rev = Rev(task, lambda z, s: np.asarray(score(jnp.asarray(z), s, BWD)))
    for q in {id(v): v for v in (c, inits[0])}.values():
        check_model(ck, q, task, rev, sp, the_mask(q.args), n=1)
        check_unpack(ck, q.unpack, sp, {mask_name(q.args): the_mask(q.args)}, task)
    # the forward sampler
    x, y = pat(1, len(sp.un), 1), pat(2, len(sp.ob), 1)

    def calling(stub):
        def f(a, n):
            a['seen'] = a['fwd_sampler'](rng.W.root(('fwd', n)), jnp.asarray(x), jnp.asarray(y), **{mask_name(a): the_mask(a)})
            return stub(a, n)
        return f

    q = go(task, path, task.argv(method=method, nparticles=N, nsamples=1, y0_id=yid),
           stubs=[(make_st_nn, nn_stub), (gibbs_init, calling(init_stub)), (gibbs_kernel, calling(gibbs_stub)), (euler_maruyama, em_stub)])
    for e, v in zip(q.of('euler_maruyama'), [v for v in q.calls if v.name.startswith('gibbs')]):
        eq(ck, e.x0, Split(the_mask(v.args), task).join(x, y), 'fwd', 'the forward sampler starts at the image')
        eq(ck, e.ts, ts, 'fwd', 'time grid of the forward sampler')
        ck.require(e.return_path, 'fwd', 'the forward sampler returns the path')
        eq(ck, v.args['seen'], e.out, 'fwd', 'the forward sampler returns the path')
        z = pat(3, 28, 28, 1)
        for t in ts:
            ck.close(e.drift(jnp.asarray(z), jnp.asarray(t)), np.asarray(score(jnp.asarray(z), float(t), FWD)), 'fwd', 'drift of the forward sampler', tol=1e-6)
            ck.close(float(e.dispersion(t)) ** 2, task.ref.b2(float(t)), 'fwd', 'dispersion of the forward sampler', tol=1e-6)
    ck.require(len(q.of('euler_maruyama')) == len([v for v in q.calls if v.name.startswith('gibbs')]), 'fwd', 'the forward sampler simulates')
    for v in inits + cs:
        ck.require(v.nparticles == N and not v.marg_y, 'flag', f'{v.name}: {v.nparticles} particles, marg_y={v.marg_y}')
        eq(ck, v.y0, c.y0, 'y0', 'observation')
        ck.require(np.array_equal(the_mask(v.args).unobs_inds_ravelled, sp.un), 'mask', 'another mask')
        if v.name == 'gibbs_init':
            ck.require(v.method == ('filter' if method == 'filter' else 'smoother'), 'flag', f'method {v.method}')
        else:
            ck.require(v.explicit_backward and v.explicit_final, 'flag', 'explicit_backward and explicit_final')
    want = corrupt_pictures(task, sp, img, c.y0, 0, True)
    res = results(ck, r, task, NS)
    ck.require(len(res) == 3, 'saved', f'{len(res)} result files')
    ck.require(len(inits) == (3 * NS if method == 'filter' else 3), 'calls', f'{len(inits)} initialisations')
    for s, name in enumerate(('random', 'blank', 'interp')):
        mine = inits[s * NS:(s + 1) * NS] if method == 'filter' else inits[s:s + 1]
        for v in mine:
            if name == 'random':
                ck.require((np.asarray(v.x0) >= 0).all() and (np.asarray(v.x0) <= 1).all() and np.std(np.asarray(v.x0)) > 0.2, 'start', 'the random start')
            else:
                ck.close(v.x0, sb_start(np.asarray(v.x0), c.y0, sp, task, name), 'start', f'the start "{name}"', tol=1e-5)
        if method != 'filter':
            mine_k = cs[s * NS:(s + 1) * NS]
            ck.require(len(cs) == 3 * NS, 'calls', f'{len(cs)} iterations')
            start = sp.join(mine[0].out[0], c.y0)
            want.append((f'the initial image of start {name}', start))
            ck.require(any(isinstance(v, np.ndarray) and v.ndim == 3 and np.allclose(v, start, atol=1e-3) for v in r.saved.values()), 'saved',
                       f'the initial image of start {name} is not saved')
            for i, v in enumerate(mine_k):
                p = mine_k[i - 1].out if i else (*mine[0].out, np.zeros(K + 1))
                for a, b, w in ((v.x0, p[0], 'state'), (v.us_star, p[1], 'path'), (v.bs_star, p[2], 'labels')):
                    eq(ck, a, b, 'thread', f'iteration {i} of start {name} does not start from its last {w}')
            mine = mine_k
        for i, v in enumerate(mine):
            x_ = sp.join(v.out[0], c.y0)
            want.append((f'sample {i} of start {name}', x_))
            ck.close(res[s][i], x_, 'saved-order', f'saved sample {i} of start {name}', tol=1e-3)
    check_pictures(ck, task, r, want)
    check_keys(ck, r, method)


def run(ck):
    inp = [Task('inpainting', 4), Task('inpainting', 3, sde='const', ema=True)]
    sup = [Task('supr', 4, ema=True), Task('supr', 2, rnd=True, sde='const'), Task('supr', 4, rnd=True)]
    methods = [('gibbs', False, 'smoother'), ('gibbs-eb', True, 'filter'), ('gibbs-eb-ef', False, 'filter'), ('filter', True, 'smoother'),
               ('gibbs-eb-ef', True, 'smoother'), ('filter', False, 'filter')]
    for i, t in enumerate(inp + sup):
        for j, (m, marg, init) in enumerate(methods):
            if ck.thorough or (i + j) % 2 == 0:
                ck.case(f'{t.name()}-{m}{"-marg" if marg else ""}-{init}', gibbs, ck, t, m, marg, init)
        for delta in (None, 0.05):
            if ck.thorough or (delta is None) == (i % 2 == 0):
                ck.case(f'{t.name()}-pmcmc-{delta}', pmcmc, ck, t, delta)
        ck.case(f'{t.name()}-twisted', twisted, ck, t)
        ck.case(f'{t.name()}-csgm', csgm, ck, t)
    m1, m2 = Task('inpainting', 26, 'mnist'), Task('supr', 2, 'mnist', sde='const')
    ck.case('mnist-inpainting', gibbs, ck, m1, 'gibbs-eb-ef', False, 'smoother')
    ck.case('mnist-supr', gibbs, ck, m2, 'gibbs-eb-ef', False, 'smoother')
    for t in (m1, m2):
        ck.case(f'mnist-{t.kind}-pmcmc', pmcmc, ck, t, None)
        ck.case(f'mnist-{t.kind}-twisted', twisted, ck, t)
        ck.case(f'mnist-{t.kind}-csgm', csgm, ck, t)
    for method in ('filter', 'gibbs'):
        for sde in ('lin', 'const') if ck.thorough else ('lin',):
            ck.case(f'sb-{method}-{sde}', sb, ck, SbTask(4, sde), method)
    ck.bound('images of 8 x 8 pixels and three channels (and of MNIST size), 3 steps, 3 iterations on 2 test images, squares of 3 and 4 pixels, rates 2 and 4, '
             'fixed and random masks, both SDEs, both parameter sets, every method')
    ck.assume('a fixed score function in place of the network (the networks are judged by P18); the samplers are replaced by recorders (P01-P07, P19, P20); '
              'test image, mask and data permutation are fixed functions of the name of their key')

"""The training scripts fit the model that the restoration scripts load.

imgs/train.py and sb_imgs/train.py are executed in process (mc/scripts.py) with the network and the loss replaced by
recorders.  The loss is a quadratic whose gradients are known, so that the whole history of parameters, optimiser states
and averages is determined by the options and by the sequence of loss calls; what is saved is compared with it."""
import numpy as np
import jax
import jax.numpy as jnp
import optax
from mc import rng
from mc.report import Violation
from mc.scripts import execute, Wave, Args
from mc.p23 import tok, check_keys, first_call, eq
from mc.p24 import SDES, digit, double, pat, PATCH
from fbs.sdes.linear import make_linear_sde_law_loss
from fbs.sdes.simulators import reverse_simulator, euler_maruyama
from fbs.dsb.base import ipf_loss_cont, ipf_loss_cont_v
from fbs.nn.models import make_st_nn

P0 = np.array([0.3, -0.2, 0.5])
C = np.array([1., 0.5, 2.])
NDATA = 30000


def data():
    i = np.arange(NDATA, dtype=np.float64)
    x = np.zeros((NDATA, 2, 2, 3))
    x[:, 0, 0, 0] = i
    x[:, 1, 1, 2] = -i
    return x.astype(np.float32)


DATA = data()


def value(x):
    return np.asarray(x.primal if isinstance(x, jax.core.Tracer) and hasattr(x, 'primal') else x)


class Losses:
    """A sequence of loss values with known gradients.  Remembers every call."""

    def __init__(self):
        self.calls = []

    def __call__(self, param, **seen):
        n = len(self.calls)
        self.seen = {k: len(v) for k, v in rng.W.uses.items()}
        self.calls.append(dict(param=value(param), **seen))
        return 0.5 * jnp.sum(jnp.asarray(C) * param ** 2) + jnp.sum(jnp.asarray(self.slope(n)) * param)

    @staticmethod
    def slope(n):
        return np.array([np.sin(n + 1.), 1.5 * np.cos(2. * n), 0.7 * np.sin(0.5 * n)])

    @classmethod
    def grad(cls, n, p):
        return C * p + cls.slope(n)


class Optimiser:
    """The optimiser that the options describe."""

    def __init__(self, schedule, lr, nepochs, per_epoch, clip):
        s = dict(cos=lambda: optax.cosine_decay_schedule(lr, int(0.95 * nepochs) * per_epoch, alpha=1e-2),
                 exp=lambda: optax.exponential_decay(lr, per_epoch, .96), const=lambda: optax.constant_schedule(lr))[schedule]()
        self.o = optax.chain(optax.clip_by_global_norm(1.), optax.adam(s)) if clip else optax.adam(s)
        self.state = self.o.init(jnp.asarray(P0))
        self.p = np.asarray(P0)
        self.n = 0

    def step(self, n):
        up, self.state = self.o.update(jnp.asarray(Losses.grad(n, self.p)), self.state, jnp.asarray(self.p))
        self.p = self.p + np.asarray(up)
        self.n += 1


def nn_stub(a, n):
    return jnp.asarray(P0), None, lambda x, t, p: p[0] * x + p[1] * jnp.sin(x) * (1. + t) + p[2]


def rows_of(ck, x0s, nb):
    x0s = np.asarray(x0s)
    ck.require(x0s.shape == (nb, 2, 2, 3), 'batch', f'a batch of shape {x0s.shape}')
    rows = np.round(x0s[:, 0, 0, 0]).astype(int)
    ck.require((rows >= 0).all() and (rows < NDATA).all() and np.array_equal(x0s, DATA[rows].astype(x0s.dtype)), 'batch', 'the batch is not made of images of the data set')
    ck.require((rows >= 1000).all(), 'held-out', 'an image of the test part is used for training')
    return rows


def check_epochs(ck, batches, per_epoch, nb):
    """Every epoch uses every image at most once, and the order differs between epochs."""
    ck.require(len(batches) % per_epoch == 0, 'epoch', f'{len(batches)} batches with {per_epoch} per epoch')
    orders = set()
    for e in range(0, len(batches), per_epoch):
        rows = np.concatenate([rows_of(ck, b, nb) for b in batches[e:e + per_epoch]])
        ck.require(len(np.unique(rows)) == per_epoch * nb, 'epoch', f'epoch {e // per_epoch} repeats an image')
        orders.add(rows.tobytes())
    ck.require(len(orders) > 1 or len(batches) == per_epoch, 'epoch', 'the order of the images is the same in all epochs')
    ck.count(states=len(batches), transitions=len(batches))


def check_network(ck, r, dt, dim, ups, nb):
    for c in r.of('make_st_nn'):
        ck.require(tuple(c.args['dim_in']) == (2, 2, 3), 'network', f'the network is made for images of shape {c.args["dim_in"]}')
        ck.require(abs(c.nn.dt - dt) < 1e-12 and c.nn.dim == dim and c.nn.upsampling == ups, 'network',
                   f'the network has dt={c.nn.dt}, dim={c.nn.dim}, upsampling={c.nn.upsampling}')


FILES = {'celeba_hq2.npy': DATA}


def law(ck, sde, schedule, clip, loss_type, save_mem, nb, nepochs, ups, nsteps, lr):
    L = Losses()

    def make_loss(a, n):
        def loss(param, key, xs):
            rng.W.use(rng.decode(key), ('draw', ('loss',)))
            return L(param, xs=np.asarray(xs), key=rng.decode(key))
        return loss

    argv = ['--dataset', 'celeba-2', '--sde', sde, '--schedule', schedule, '--loss_type', loss_type, '--batch_size', nb, '--nepochs', nepochs,
            '--upsampling', ups, '--nsteps', nsteps, '--lr', lr] + ['--grad_clip'] * clip + ['--save_mem'] * save_mem
    r = execute('experiments/imgs/train.py', argv, files=FILES, digits=digit, loose=True, patch=PATCH, stop=('reverse_simulator', 0),
                stubs=[(make_st_nn, nn_stub), (make_linear_sde_law_loss, make_loss), (reverse_simulator, lambda a, n: a['u0'])])
    c = first_call(r, 'make_linear_sde_law_loss')
    ck.require(float(c.t0) == 0. and float(c.T) == 2. and int(c.nsteps) == nsteps and bool(c.random_times) and c.loss_type == loss_type
               and bool(c.save_mem) == save_mem, 'loss', f'the loss is made with t0={c.t0}, T={c.T}, nsteps={c.nsteps}, random_times={c.random_times}, '
               f'loss_type={c.loss_type}, save_mem={c.save_mem}')
    check_sde2(ck, SDES[sde](2.), c.sde, 2.)
    x = pat(1, 2, 2, 3)
    eq(ck, c.nn_fn(jnp.asarray(x), 0.7, jnp.asarray([1., 2., 3.])), nn_stub(None, 0)[2](x, 0.7, np.array([1., 2., 3.])), 'loss', 'the network of the loss')
    check_network(ck, r, 2. / 200, 64, ups, nb)
    per = (NDATA - 1000) // nb
    ck.require(len(L.calls) == per * nepochs, 'steps', f'{len(L.calls)} optimisation steps in {nepochs} epochs of {per}')
    check_epochs(ck, [q['xs'] for q in L.calls], per, nb)
    ck.require(len({q['key'] for q in L.calls}) == len(L.calls), 'key-reuse', 'two steps use the same key')
    o = Optimiser(schedule, lr, nepochs, per, clip)
    ema = o.p
    saves = {}
    for n, q in enumerate(L.calls):
        ck.close(q['param'], o.p, 'param', f'parameters at step {n}', tol=1e-5)
        o.step(n)
        ema = o.p if n < 300 else (0.99 * ema + 0.01 * o.p if n % 2 == 0 else ema)
        if (n + 1) % (100 * per) == 0:
            saves[f'./checkpoints/celeba-2_{sde}_{n // per}.npz'] = (o.p, ema)
    ck.require(set(r.saved) == set(saves), 'saved', f'saved {sorted(r.saved)}, expected {sorted(saves)}')
    for f, (p, e) in saves.items():
        s = r.saved[f]
        ck.require(isinstance(s, dict) and {'param', 'ema_param'} <= set(s), 'saved', 'the checkpoint lacks parameters')
        ck.close(s['param'], p, 'saved-param', f'the parameters saved in {f}', tol=1e-5)
        ck.close(s['ema_param'], e, 'saved-ema', f'the averaged parameters saved in {f}', tol=1e-5)
    ck.count(states=len(L.calls), transitions=len(L.calls), traces=len(saves))
    # the score that is shown after the training is the averaged one
    v = r.of('reverse_simulator')[0]
    x = pat(2, 2, 2, 3)
    ck.close(v.score(jnp.asarray(x), 0.4), nn_stub(None, 0)[2](x, 0.4, ema), 'shown', 'score of the simulation after training', tol=1e-5)
    ts = np.asarray(v.ts)
    ck.require(ts[0] == 0. and abs(ts[-1] - 2.) < 1e-5 and (np.diff(ts) > 0).all(), 'shown', 'times of the simulation after training')
    check_keys_without(ck, r, L.seen, 'training')


def check_sde2(ck, ref, sde, T):
    x = np.array([0.7, -1.1])
    for t in np.linspace(0., T, 5):
        ck.close(sde.drift(jnp.asarray(x), t), ref.a(t) * x, 'sde', 'drift of the SDE')
        ck.close(float(sde.dispersion(t)) ** 2, ref.b2(t), 'sde', 'dispersion of the SDE')


def check_keys_without(ck, r, seen, what):
    """The audit up to the last step, except for the initial parameters of the networks."""
    skip = {c.kid for c in r.of('make_st_nn')}
    r.uses = {k: v[:seen[k]] for k, v in r.uses.items() if k not in skip and k in seen}
    check_keys(ck, r, what)


def times(r):
    """The uniform numbers of every draw of the run, in order."""
    out, i = [], 0
    for kind, kid, shape, dtype in r.fed:
        if kind == 'uniform':
            n = int(np.prod(shape, dtype=int))
            out.append(np.asarray(Wave(True)[i:i + n]))
            i += n
    return out


def bridge(ck, sde, schedule, clip, vmapped, nb, nepochs, nsbs, T, nsteps, ups, dim, lr):
    L = Losses()

    def loss(a, n):
        return L(a['param'], key=rng.decode(a['key']), sim=value(a['simulator_param']), xs=np.asarray(a['init_samples']), ts=np.asarray(a['ts']),
                 drift=a['parametric_drift'], sim_drift=a['simulator_drift'], dispersion=a['dispersion'])

    def other(a, n):
        raise Violation('loss', 'the loss is not the one that is asked for')

    argv = ['--dataset', 'celeba-2', '--sde', sde, '--schedule', schedule, '--batch_size', nb, '--nepochs', nepochs, '--nsbs', nsbs, '--T', T,
            '--upsampling', ups, '--nsteps', nsteps, '--lr', lr, '--nn_dim', dim] + ['--grad_clip'] * clip + ['--vmap_loss'] * vmapped
    a, b = (ipf_loss_cont_v, ipf_loss_cont) if vmapped else (ipf_loss_cont, ipf_loss_cont_v)
    r = execute('experiments/sb_imgs/train.py', argv, files=FILES, digits=digit, loose=True, patch=PATCH, stop=('euler_maruyama', 0),
                stubs=[(make_st_nn, nn_stub), (a, loss), (b, other), (euler_maruyama, lambda a, n: a['x0'])])
    check_network(ck, r, 0.5 / 200, dim, ups, nb)
    ref = SDES[sde](T)
    per = (NDATA - 1000) // nb
    ck.require(len(L.calls) == 2 * nsbs * nepochs * per, 'steps', f'{len(L.calls)} optimisation steps')
    fwd, bwd = (Optimiser(schedule, lr, nepochs, per, clip) for _ in range(2))
    nn = nn_stub(None, 0)[2]
    us = [u for u in times(r) if len(u) == nsteps - 1]
    n, keys, saves = 0, set(), {}
    x = pat(1, 2, 2, 3)
    normals = []
    for s in range(nsbs):
        for back in (True, False):
            me, it = (bwd, fwd) if back else (fwd, bwd)
            which = f'bridge iteration {s}, {"backward" if back else "forward"} process'
            part = L.calls[n:n + nepochs * per]
            if back:
                check_epochs(ck, [q['xs'] for q in part], per, nb)
            for q in part:
                ck.close(q['param'], me.p, 'param', f'{which}: parameters', tol=1e-5)
                ck.close(q['sim'], it.p, 'param', f'{which}: parameters of the simulator', tol=1e-5)
                t = q['ts'] if back else T - q['ts']
                ck.require(len(t) == nsteps + 1 and abs(t[0]) < 1e-6 and abs(t[-1] - T) < 1e-6 and (np.diff(t) >= 0).all(), 'times', f'{which}: times {q["ts"]}')
                if len(us) == len(L.calls):
                    ck.close(t[1:-1], np.sort(us[n]) * T, 'times', f'{which}: the random times are not uniform', tol=1e-4)
                ck.require(q['key'] not in keys, 'key-reuse', f'{which}: a key is used in two steps')
                keys.add(q['key'])
                for tt in (0., 0.3 * T, T):
                    p = np.array([0.4, 1., -2.])
                    eq(ck, q['drift'](jnp.asarray(x), tt, jnp.asarray(p)), nn(x, tt, p), 'drift', f'{which}: the drift that is learnt')
                    want = ref.a(tt) * x if s == 0 and back else nn(x, tt, p)
                    eq(ck, q['sim_drift'](jnp.asarray(x), tt, jnp.asarray(p)), want, 'sim-drift', f'{which}: the drift of the simulator')
                    ck.close(float(q['dispersion'](tt)) ** 2, ref.b2(tt), 'dispersion', f'{which}: dispersion')
                if not back:
                    ck.require(q['xs'].shape == (nb, 2, 2, 3), 'reference', f'{which}: a batch of shape {q["xs"].shape}')
                    normals.append(q['xs'].ravel())
                me.step(n)
                n += 1
        saves[f'./checkpoints/sb_celeba-2_{sde}_{s}.npz'] = (fwd.p, bwd.p)
    ck.require(set(r.saved) == set(saves), 'saved', f'saved {sorted(r.saved)}, expected {sorted(saves)}')
    for f, (p, e) in saves.items():
        v = r.saved[f]
        ck.require(isinstance(v, dict) and {'param_fwd', 'param_bwd'} <= set(v), 'saved', 'the checkpoint lacks parameters')
        ck.close(v['param_fwd'], p, 'saved-fwd', f'the forward parameters saved in {f}', tol=1e-5)
        ck.close(v['param_bwd'], e, 'saved-bwd', f'the backward parameters saved in {f}', tol=1e-5)
    # reference samples: the standard normals as drawn, every one once
    z, fed = np.concatenate(normals), sum(int(np.prod(s, dtype=int)) for k, _, s, _ in r.fed if k == 'normal')
    w = np.asarray(Wave()[0:fed])
    ck.close(np.sort(z), np.sort(w[:len(z)]), 'reference', 'the reference samples are not fresh standard normals', tol=1e-5)
    e = r.of('euler_maruyama')[0]
    ck.close(e.drift(jnp.asarray(x), 0.4 * T), nn(x, 0.4 * T, bwd.p), 'shown', 'drift of the simulation after training', tol=1e-5)
    ts = np.asarray(e.ts)
    ck.require(abs(ts[0] - T) < 1e-6 and abs(ts[-1]) < 1e-6 and (np.diff(ts) < 0).all(), 'shown', 'the simulation after training does not run backwards')
    ck.count(states=n, transitions=n, traces=len(saves))
    check_keys_without(ck, r, L.seen, 'bridge training')


def run(ck):
    law_cases = [('lin', 'cos', 0, 'score', False, 14500, 100, 'pixel_shuffle', 2, 2e-4), ('const', 'exp', 1, 'ipf', True, 9667, 100, 'resize', 5, 1e-2),
                 ('lin', 'const', 1, 'ipf-score', False, 7250, 100, 'pixel_shuffle', 3, 1e-1), ('const', 'cos', 1, 'score', True, 29000, 200, 'conv', 1, 1e-2),
                 ('lin', 'exp', 0, 'score', False, 9000, 3, 'pixel_shuffle', 4, 1e-2)]
    if ck.thorough:
        law_cases += [(s, c, g, 'score', m, nb, ne, 'pixel_shuffle', 2, 1e-2) for s in ('lin', 'const') for c in ('cos', 'exp', 'const') for g in (0, 1)
                      for m in (False, True) for nb, ne in ((9667, 100), (29000, 300), (5800, 99))]
    for i, a in enumerate(law_cases):
        ck.case(f'train-{i}-{"-".join(str(x) for x in a[:7])}', law, ck, *a)
    sb_cases = [('lin', 'cos', 0, False, 14500, 2, 3, 0.5, 4, 'pixel_shuffle', 64, 1e-2), ('const', 'exp', 1, True, 9667, 3, 2, 0.7, 2, 'resize', 32, 1e-1),
                ('lin', 'const', 1, False, 29000, 2, 2, 0.5, 1, 'pixel_shuffle', 64, 1e-2), ('const', 'cos', 0, True, 9000, 2, 2, 1., 3, 'pixel_shuffle', 16, 1e-2)]
    if ck.thorough:
        sb_cases += [(s, c, g, v, nb, 3, 4, T, n, 'pixel_shuffle', 64, 1e-2) for s in ('lin', 'const') for c in ('cos', 'exp', 'const') for g in (0, 1)
                     for v in (False, True) for nb, T, n in ((9667, 0.5, 2), (14500, 1., 5))]
    for i, a in enumerate(sb_cases):
        ck.case(f'bridge-{i}-{"-".join(str(x) for x in a[:9])}', bridge, ck, *a)
    ck.bound('30000 images of 2 x 2 pixels, 1 to 4 steps per epoch, up to 200 epochs (300 in the thorough tier), 2 to 4 bridge iterations, all schedules, '
             'loss types, clipping, both SDEs')
    ck.assume('the network and the loss are replaced (P12, P13, P18 judge them); the loss has known gradients; permutations are fixed functions of the name of '
              'their key')

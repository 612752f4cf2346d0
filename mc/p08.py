"""Randomness discipline: every draw uses a key of its own, on every branch and in every loop iteration.

The explorer names every key (root, split, fold_in) and records every use of every key while the real code runs with all
loops unrolled and all branches taken; the recorded key tree is the explored state space. The same functions are then
run natively, eagerly, with real keys, and the key values that reach the draws are compared with each other."""
import numpy as np
import jax
import jax.numpy as jnp
from mc.explore import uses, SIGNS
from mc.models import Hmm, Joint
from mc.report import Violation
from mc import rng
from fbs.samplers.csmc.csmc import csmc_kernel
from fbs.samplers.csmc import resamplings as CR
from fbs.samplers import resampling as R
from fbs.samplers.gibbs import gibbs_kernel, gibbs_init, force_move, bridge_sampler
from fbs.samplers.smc import (bootstrap_filter, bootstrap_backward_smoother, pmcmc_kernel, pmcmc_filter_step,
                              pcn_proposal, twisted_smc)
from fbs.sdes import linear as L
from fbs.sdes import simulators as S
from fbs.dsb.base import ipf_loss_cont, ipf_loss_cont_v, ipf_loss_disc
from fbs.data.base import Dataset
from fbs.data.bayesian import Crescent
from fbs.data.images import Image, ImageRestore


def audit(us, parent):
    """Problems with the recorded key uses: [(kind, key id, uses)]."""
    bad = []
    drawn = {k for k, v in us.items() if any(u[0] == 'draw' for u in v)}

    def live(kid):
        """Is this key, or one derived from it, drawn from?"""
        return kid in drawn or any(live(c) for c in children.get(kid, ()))

    children = {}
    for c, name in parent.items():
        if isinstance(name[0], int):
            children.setdefault(name[0], []).append(c)
    for k, v in us.items():
        draws = [u for u in v if u[0] == 'draw']
        splits = {u for u in v if u[0] != 'draw'}
        if len(draws) > 1:
            bad.append(('two draws from one key', k, v))
        if draws and any(live(c) for c in children.get(k, ())):
            bad.append(('a key is both drawn from and split', k, v))
        nums = {}
        for c in children.get(k, ()):
            if live(c):
                nums.setdefault(parent[c][1:3] if parent[c][1] == 'split' else 'fold', []).append(c)
        if len([n for n in nums if n != 'fold']) > 1:
            bad.append(('a key is split in two different ways and both are drawn from', k, v))
    return bad, len(drawn)


def name_of(kid, parent):
    out = []
    while isinstance(kid, int) and kid in parent:
        n = parent[kid]
        out.append(f'{n[1]}{n[2]}[{n[3]}]' if n[1] == 'split' else f'{n[0] if n[1] == "root" else n[1]}')
        kid = n[0]
    return ' <- '.join(out)


DRAWS = ('normal', 'uniform', 'choice', 'randint', 'permutation', 'bernoulli', 'categorical', 'exponential', 'gumbel',
         'rademacher', 'multivariate_normal')


def native(fn, args, key):
    """The key values reaching the draws of an eager native run with a real key."""
    seen = []
    depth = [0]
    saved = {n: getattr(jax.random, n) for n in DRAWS}

    def wrap(f):
        def g(k, *a, **kw):
            if depth[0] == 0 and not isinstance(k, jax.core.Tracer):
                seen.append(tuple(np.asarray(k).tolist()))
            depth[0] += 1
            try:
                return f(k, *a, **kw)
            finally:
                depth[0] -= 1
        return g

    for n, f in saved.items():
        setattr(jax.random, n, wrap(f))
    try:
        with jax.disable_jit():
            fn(key, *args)
    finally:
        for n, f in saved.items():
            setattr(jax.random, n, f)
    return seen


def judge(ck, fn, args, native_run=True, least=1, needs=None):
    us, world = uses(fn, *args, uniform=2, normal=SIGNS)
    bad, ndraw = audit(us, world.parent)
    ck.count(states=len(world.parent), transitions=sum(len(v) for v in us.values()))
    ck.require(ndraw >= least, 'no-draws', f'only {ndraw} keys are drawn from')
    if bad:
        kind, k, v = bad[0]
        raise Violation('key-reuse', f'{kind}: key {name_of(k, world.parent)}, uses {v}', key=name_of(k, world.parent),
                        uses=[str(u) for u in v])
    roots = [k for k, n in world.parent.items() if not isinstance(n[0], int) and n[0] != 'root']
    live = [k for k in roots if us.get(k)]
    ck.require(not live, 'own-key', 'the code draws from a key of its own making: ' + str([world.parent[k] for k in live]))
    ck.obligations += len(us)
    if native_run:
        seen = native(fn, args, jax.random.PRNGKey(12345))
        dup = [k for k in set(seen) if seen.count(k) > 1]
        ck.require(not dup, 'native-key-reuse', f'a native run draws {seen.count(dup[0]) if dup else 0} times from one key')
        ck.count(traces=len(seen))
    ck.sample(keys=len(world.parent), drawn=ndraw)


class Data(Dataset):
    def __init__(self, n=6):
        self.n = n
        self.xs = jnp.arange(2. * n).reshape(n, 2)


class Img(Image):
    def __init__(self, task, n=3, shape=(8, 8, 1)):
        self.n, self.task, self.image_shape = n, task, shape
        self.xs = jnp.linspace(0., 1., n * int(np.prod(shape))).reshape(n, *shape)


class Restore(ImageRestore):
    def __init__(self, task, n=3, shape=(8, 8, 1), **kw):
        super().__init__(task, shape, **kw)
        self.n = n
        self.xs = jnp.linspace(0., 1., n * int(np.prod(shape))).reshape(n, *shape)


def keys(ck, *prefixes):
    """The key discipline of some entry points, as a part of another property: without it the draws are not independent
    and the enumerated law is not the law."""
    def case(name, fn, *args, **kw):
        if any(name.startswith(p) for p in prefixes):
            ck.case('keys-' + name, judge, ck, fn, args, **kw)

    cases(case)


def run(ck):
    cases(lambda name, fn, *args, **kw: ck.case(name, judge, ck, fn, args, **kw))
    ck.bound('every library entry point that takes a key; three steps, three particles; all branches taken, all loops '
             'unrolled')
    ck.assume('a key that is split and also drawn from, or drawn from twice, or split in two ways that are both drawn '
              'from, is a violation of the JAX key discipline')


def cases(case):
    K, N = 3, 3
    m, j = Hmm(K, seed=1), Joint(K, seed=1)
    ts = jnp.asarray(m.ts)
    us, vs, bs = jnp.asarray(m.emb(m.paths[5])), jnp.asarray(m.embv(m.paths[9])), jnp.array([0, 2, 1, 0])
    ws = jnp.array([0.2, 0.5, 0.3])
    # resampling
    for n in ('systematic', 'stratified', 'multinomial', 'killing'):
        case(f'resampling-{n}', lambda key, w, f=getattr(R, n): f(w, key), ws)
    for n, conds in (('multinomial', (True, False)), ('killing', (True, False)), ('systematic', (False,))):
        for c in conds:
            case(f'cond-resampling-{n}-{c}', lambda key, w, f=getattr(CR, n), c=c: f(key, w, 1, 2, c), ws)
    case('force-move', lambda key, w: force_move(key, w, 1), ws, least=2)

    # samplers that split their key, as users' samplers do
    def init(key, *a):
        k1, k2 = jax.random.split(key)
        z = jax.random.normal(k1, (a[-1],)) + jax.random.uniform(k2, (a[-1],))
        return jnp.stack([z, z], -1)

    def trans(us_, v, t, key, **kw):
        k1, k2 = jax.random.split(key)
        return us_ + jax.random.normal(k1, us_.shape) * jax.random.uniform(k2)

    lpdf = lambda u, us_, v, t, **kw: -jnp.sum((u - us_) ** 2, -1)
    lik = lambda v, us_, vp, t, **kw: -(us_[:, 0] - v[0]) ** 2
    ilik = lambda v0, us_, v1, **kw: -(us_[:, 0] - v0[0]) ** 2
    for bw in (False, True):
        for cr in ('killing', 'multinomial'):
            case(f'csmc-{cr}-{bw}', lambda key, bw=bw, cr=cr: csmc_kernel(
                key, us, bs, vs, ts, init, ilik, trans, lpdf, lik, getattr(CR, cr), N - 1, backward=bw), least=2 * K)
    for res in ('systematic', 'stratified', 'killing', 'multinomial'):
        for last in (True, False):
            case(f'filter-{res}-{last}', lambda key, res=res, last=last: bootstrap_filter(
                trans, lik, vs, ts, init, key, N, getattr(R, res), return_last=last), least=3 * K)
    filt = jnp.asarray(np.random.default_rng(0).normal(size=(K + 1, N, 2)))
    case('smoother', lambda key: bootstrap_backward_smoother(key, filt, vs, ts, lpdf), least=K + 1)
    fwd_ys = lambda key, y: jnp.concatenate([y[None], y + jax.random.normal(key, (K, 1))])
    sde = L.StationaryLinLinearSDE(0.3, 1.7, 0.25, 2.9)
    for delta in (None, 0.3):
        for res in ('stratified', 'killing'):
            case(f'pmcmc-{delta}-{res}', lambda key, delta=delta, res=res: pmcmc_kernel(
                key, us[0], 0., vs, vs[0], ts, fwd_ys, sde, init, trans, lik, getattr(R, res), N, delta=delta),
                 least=3 * K + 2)
    case('pmcmc-filter', lambda key: pmcmc_filter_step(key, vs, us[:N], ts, trans, lik, R.stratified, N), least=3 * K)
    case('pcn', lambda key: pcn_proposal(key, 0.3, vs, vs * 0, lambda k: fwd_ys(k, vs[0])), least=2)
    tw = lambda y, x, t, **kw: -jnp.sum((x - y) ** 2, -1)
    case('twisted', lambda key: twisted_smc(key, vs[0], ts, lambda k, n: init(k, n),
                                            lambda x, xp, t: lpdf(x, xp, None, t), tw,
                                            lambda k, x, t, y, **kw: trans(x, None, t, k),
                                            lambda x, xp, t, y, **kw: lpdf(x, xp, None, t), R.stratified, N), least=3 * K)

    # Gibbs
    def fwd(key, x, y, **kw):
        k1, k2 = jax.random.split(key)
        return jnp.stack([jnp.concatenate([x[None], x + jax.random.normal(k1, (K, 1))]),
                          jnp.concatenate([y[None], y + jax.random.normal(k2, (K, 1))])], -1)

    unp = lambda xy, **kw: (xy[..., :1], xy[..., 1:])
    g1 = jnp.ones((1,))
    trans1 = lambda us_, v, t, key, **kw: us_ + jax.random.normal(key, us_.shape)
    lik1 = lambda v, us_, vp, t, **kw: -jnp.sum((us_ - jnp.ravel(v)[0]) ** 2, -1)
    lpdf1 = lambda u, us_, v, t, **kw: -jnp.sum((u - us_) ** 2, -1)
    unp1 = lambda xy, **kw: (xy[..., 0], xy[..., 1])
    for eb in (True, False):
        for ef in (True, False):
            for marg in (True, False):
                case(f'gibbs-{eb}-{ef}-{marg}', lambda key, eb=eb, ef=ef, marg=marg: gibbs_kernel(
                    key, g1, -g1, jnp.zeros((K + 1, 1)), jnp.array([0, 1, 1, 0]), ts, fwd, sde, unp1, 2, trans1, lpdf1,
                    lik1, marg_y=marg, explicit_backward=eb, explicit_final=ef), native_run=not marg, least=2 * K + 2)
    for method in ('filter', 'smoother', 'debug'):
        for marg in (True, False):
            case(f'gibbs-init-{method}-{marg}', lambda key, method=method, marg=marg: gibbs_init(
                key, -g1, (1,), ts, fwd, sde, unp1, trans1, lpdf1, lik1, 2, method=method, marg_y=marg)[0],
                 native_run=not marg, least=2 * K + 2)

    # SDE simulators
    for name, s in (('linlin', sde), ('const', L.StationaryConstLinearSDE(-0.5, 1.)),
                    ('exp', L.StationaryExpLinearSDE(-0.5, 1., 0.3, 0.2))):
        for keep in (True, False):
            case(f'forward-{name}-{keep}', lambda key, s=s, keep=keep: L.make_linear_sde(s)[2](
                key, jnp.ones((1,)) if keep else jnp.ones(()), ts, *(() if keep else (ts[0],)), keep_path=keep))
    for keep in (True, False):
        case(f'forward-ou-{keep}', lambda key, keep=keep: L.make_ou_sde(-0.5, 1.)[2](key, jnp.ones((2,)), ts,
                                                                                       keep_path=keep))
    drift, disp = lambda x, t: -x * t, lambda t: 1. + t
    for n in (1, 3):
        for path in (True, False):
            case(f'em-{n}-{path}', lambda key, n=n, path=path: S.euler_maruyama(
                key, jnp.ones((2,)), ts, drift, disp, integration_nsteps=n, return_path=path), least=K)
        case(f'reverse-{n}', lambda key, n=n: S.reverse_simulator(key, jnp.ones((2,)), ts - ts[0], drift, drift, disp,
                                                                  integration_nsteps=n), least=K)
        case(f'bridge-{n}', lambda key, n=n: S.doob_bridge_simulator(key, sde, g1, -g1, ts, integration_nsteps=n), least=K)
    case('discrete', lambda key: S.discrete_time_simulator(key, jnp.ones((2,)), ts, lambda x, t, s_: x * t,
                                                           lambda t, s_: t - s_))
    case('bridge-sampler', lambda key: bridge_sampler(key, g1, -g1, ts, sde), least=K, native_run=False)

    # losses
    nn = lambda x, t, p: x * p[0]
    x0s = jnp.array([[1., 2.], [0.5, -1.], [0., 3.]])
    for lt in ('score', 'ipf', 'ipf-score'):
        for rt in (True, False):
            case(f'loss-{lt}-{rt}', lambda key, lt=lt, rt=rt: L.make_linear_sde_law_loss(
                sde, nn, 0.25, 2.9, 3, rt, lt)(jnp.ones(1), key, x0s), least=3, native_run=False)
    for rt in (True, False):
        nnt = lambda x, t, p: x * p[0] * t[:, None]
        case(f'loss-save-mem-{rt}', lambda key, rt=rt: L.make_linear_sde_law_loss(
            sde, nnt, 0.25, 2.9, 3, rt, 'score', True)(jnp.ones(1), key, x0s[:, :1]), least=3, native_run=False)
        case(f'loss-ou-{rt}', lambda key, rt=rt: L.make_ou_score_matching_loss(-0.5, 1., nn, 0., 2., 3, rt)(
            jnp.ones(1), key, x0s), least=3, native_run=False)
    sd = lambda x, t, p: x * p[0] + t
    for f in (ipf_loss_cont, ipf_loss_cont_v):
        case(f'loss-{f.__name__}', lambda key, f=f: f(key, jnp.ones(1), jnp.ones(1), x0s, ts, sd, sd, disp))
    case('loss-disc', lambda key: ipf_loss_disc(jnp.ones(1), jnp.ones(1), x0s, jnp.arange(4), jnp.ones(3), sd, sd, key))

    # data
    d = Data()
    case('draw-subset', lambda key: d.draw_subset(key, 3))
    case('enumeration', lambda key: d.init_enumeration(key, 2))
    case('crescent', lambda key: Crescent().sampler(key, 3), least=2)
    for task in ('inpaint-3', 'deconv-3', 'supr-4'):
        im = Img(task)
        case(f'image-{task}', lambda key, im=im: im.sampler(key), least=2)
        case(f'image-batch-{task}', lambda key, im=im: im.enumerate_subset(0, [jnp.array([0, 1, 2])], key), least=3,
             native_run=False)
    for task, kw in (('inpaint-3', {}), ('supr-2', {}), ('supr-4', {})):
        im = Restore(task, **kw)
        case(f'restore-{task}', lambda key, im=im: im.sampler(key), least=2)

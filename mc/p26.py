"""The experiments compare the methods on the same problems, and their tables and figures show what the results say.

The scripts that produce results are executed in process (mc/scripts.py); test cases of the same number have to be the
same for all of them.  The tabulators are executed on synthetic results under the names that those scripts really save,
and every printed number and plotted line is recomputed from its definition."""
import re
import sys
import types
import numpy as np
import jax.numpy as jnp
import matplotlib.axes
import matplotlib.pyplot as plt
from mc import rng
from mc.report import Violation
from mc.scripts import execute, Stop
from mc.p16 import w2
from mc.p23 import STUBS as GP_STUBS, SB, tok, first_call, eq
from mc.p24 import Task, SbTask, go, Rev, Split, the_mask, mask_name, check_model, check_unpack, check_fwd, check_loaded, STUBS as IMG_STUBS, grid_of, \
    check_sde, nn_stub, digit, PATCH, K, pat, FWD, BWD
from fbs.sdes.simulators import euler_maruyama
from fbs.nn.models import make_st_nn
from fbs.samplers.gibbs import gibbs_init

EM = (euler_maruyama, SB[-1][1])


def full(name, v):
    """The name that numpy gives the file."""
    ext = '.npz' if isinstance(v, dict) else '.npy'
    return name if name.endswith(ext) else name + ext


def saved(r):
    return {full(n, v): v for n, v in r.saved.items()}


# ---- the same test cases ------------------------------------------------------------------------------------------------
def trues_of(r):
    return [v for v in r.saved.values() if isinstance(v, dict) and 'test_img' in v]


def same_images(ck, task):
    """The k-th image and mask do not depend on the method, the number of particles, or where a run starts."""
    base = None
    runs = [(task.path(), dict(method=m, nparticles=n, nsamples=1, ny0s=3, start_from=s)) for m, n, s in
            (('gibbs-eb-ef', 2, 0), ('gibbs', 3, 1), ('filter', 2, 0), ('filter', 3, 2), ('pmcmc-0.05', 2, 1), ('pmcmc', 3, 0))]
    runs += [(task.path('_twisted'), dict(nparticles=2, nsamples=1, ny0s=3, start_from=s)) for s in (0, 2)]
    runs += [(task.path('_csgm'), dict(nsamples=1, ny0s=3, start_from=s)) for s in (0, 1)]
    for path, kw in runs:
        r = go(task, path, task.argv(**kw))
        t = trues_of(r)
        what = f'{path} {kw}'
        ck.require(len(t) == 3 - kw['start_from'], 'images', f'{what}: {len(t)} test images are saved')
        for i, v in enumerate(t):
            k = i + kw['start_from']
            if base is None:
                continue
            ck.require(set(v) == set(base[k]) and all(np.array_equal(v[n], base[k][n]) for n in v), 'same-images',
                       f'test image {k} of {what} is not the one of the other methods')
            ck.count(states=1, transitions=1)
        base = base or t
        ck.count(traces=1)
    for i in range(3):
        for j in range(i):
            ck.require(not np.array_equal(base[i]['test_img'], base[j]['test_img']), 'same-images', f'test images {j} and {i} are the same')


def same_gp(ck, paths, ids, d):
    for i in ids:
        base = None
        for path, extra in paths:
            r = execute(path, ['--d', d, '--id', i, '--nsamples', 2, *extra], real=True)
            s, = [v for v in r.saved.values()]
            if base is not None:
                for n in ('gp_mean', 'gp_cov'):
                    ck.close(s[n], base[n], 'same-problem', f'{n} of {path} {extra} with id {i}, compared with {paths[0][0]}', tol=1e-4)
            base = base or s
            ck.count(states=1, transitions=1, traces=1)
        s, = execute(paths[0][0], ['--d', d, '--id', i - 1, '--nsamples', 2, *paths[0][1]], real=True).saved.values()
        ck.require(not np.allclose(s['gp_mean'], base['gp_mean']), 'other-problem', f'numbers {i - 1} and {i} have the same posterior')


# ---- synthetic results --------------------------------------------------------------------------------------------------
def sample_array(name, *shape):
    """Fixed samples, a function of the name."""
    h = np.uint32(sum((i + 1) * ord(c) for i, c in enumerate(name)))
    return np.random.RandomState(int(h)).randn(*shape) * (1. + 0.2 * (h % 7)) + 0.1 * (h % 5)


def gp_of(name, d):
    h = sum(ord(c) for c in name)
    L = np.tril(sample_array(name + 'cov', d, d)) + 2. * np.eye(d)
    return np.cos(h + np.arange(d)), L @ L.T


def tabulate(path, load, patch=(), modules=()):
    """Run a tabulator with the given loader.  Returns the run and what it plots."""
    plots = []

    def record(kind):
        def f(self, *a, **k):
            plots.append((kind, self, a, k))
            return [types.SimpleNamespace()] if kind == 'plot' else types.SimpleNamespace()
        return f

    A = matplotlib.axes.Axes
    rc = dict(plt.rcParams)
    quiet = lambda *a, **k: None
    old = {m: sys.modules.get(m) for m, _ in modules}
    try:
        for m, v in modules:
            sys.modules[m] = v
        r = execute(path, [], files=load, real=True,
                    patch=[(A, 'plot', record('plot')), (A, 'contour', record('contour')), (A, 'fill_between', record('fill')), (A, 'legend', quiet),
                           (A, 'clabel', quiet), (plt, 'legend', quiet), (plt, 'tight_layout', quiet), (A, 'imshow', record('imshow')), *patch])
    finally:
        plt.rcParams.update(rc)
        for m, v in old.items():
            if v is None:
                del sys.modules[m]
            else:
                sys.modules[m] = v
    return r, plots


def moments(x):
    return x.mean(0), np.cov(x, rowvar=False)


def kl_of(m0, C0, m1, C1):
    d = len(m0)
    s = np.linalg.solve(C1, C0)
    return 0.5 * (np.trace(s) - d + (m1 - m0) @ np.linalg.solve(C1, m1 - m0) + np.linalg.slogdet(C1)[1] - np.linalg.slogdet(C0)[1])


def numbers(text):
    return [float(x) for x in re.findall(r'-?\d+\.\d+', text)]


def produced(ck, path, argv, stubs):
    r = execute(path, argv, stubs=stubs)
    n, = [full(a, b) for a, b in r.saved.items()]
    return n


def toy_names(sde, N, i):
    """The names of the results of the GP experiment, by the command that makes them."""
    a = ['--d', 2, '--nsamples', 2, '--sde', sde, '--id', i]
    n = ['--nparticles', N]
    return {f'filter-{N}': ('experiments/toy/gp_filter.py', a + n), f'gibbs-eb-{N}': ('experiments/toy/gp_gibbs.py', a + n + ['--explicit_backward']),
            f'twisted-{N}': ('experiments/toy/gp_twisted.py', a + n), 'csgm': ('experiments/toy/gp_csgm.py', a),
            **{f'pmcmc-{d}-{N}': ('experiments/toy/gp_pmcmc.py', a + n + ['--delta', d]) for d in (0.01, 0.005, 0.001)}}


def known_names(ck, loaded, commands, stubs, i, what):
    """Every result read for the repetition i is one that a listed command saves, all different."""
    got = [n for n in loaded if re.search(rf'-{i}\.np[yz]$', n)]
    made = {}
    for key, (path, argv) in commands.items():
        n = produced(ck, path, argv, stubs)
        ck.require(n not in made, 'names', f'{key} and {made.get(n)} save the same file')
        made[n] = key
    for n in got:
        ck.require(n in made, 'names', f'{what} reads {n}, which no experiment saves')
    ck.count(states=len(got), transitions=len(made))
    return [made[n] for n in got]


D, NSAMP, NCH = 3, 7, 2


def make_gp(name):
    mean, cov = gp_of(name, D)
    chain = any(s in name for s in ('gibbs', 'pmcmc')) and '/toy/' in name
    return dict(samples=sample_array(name, *((NCH,) if chain else ()), NSAMP, D), gp_mean=mean, gp_cov=cov)


def run_tab(path, make, **kw):
    return tabulate(path, Named(make), **kw)


class Named:
    """Result files made on demand from their names."""

    def __init__(self, make):
        self.make = make

    def lookup(self, name):
        return self.make(name)


def errors(name):
    s = make_gp(name)
    m, C = s['gp_mean'], s['gp_cov']
    chains = s['samples'] if s['samples'].ndim == 3 else s['samples'][None]
    e = []
    for x in chains:
        a, B = moments(x)
        e.append((kl_of(m, C, a, B), w2(m, C, a, B), np.abs(a - m).mean(), np.abs(np.diag(B) - np.diag(C)).mean()))
    return np.mean(e, axis=0)


def table_toy(ck):
    r, _ = run_tab('experiments/tabulators/tabulate_toy.py', make_gp)
    names = r.loaded
    kinds = known_names(ck, names, toy_names('const', 100, 7), GP_STUBS + [EM], 7, 'the table')
    kinds = sorted(set(kinds))
    ck.require({'filter-100', 'gibbs-eb-100', 'twisted-100', 'csgm'} < set(kinds), 'names', f'the table is about {kinds}')
    lines = [x for x in r.texts.splitlines() if x.startswith('Method')]
    ck.require(len(lines) == len(kinds), 'table', f'{len(lines)} rows for {len(kinds)} methods')
    for line in lines:
        label = line.split('|')[0].split()[-1]
        mine = sorted({n for n in names if f'/{label}-' in n and re.fullmatch(r'\d+\.npz', n.split(f'/{label}-')[1])})
        ck.require(len(mine) == 100, 'table', f'the row {label} is made of {len(mine)} repetitions')
        e = np.array([errors(n) for n in mine])
        got = numbers(line[line.index('|'):])
        want = np.stack([e.mean(0), e.std(0)], 1).ravel()
        ck.close(got, want, 'table', f'row {label}: KL, Bures, mean, variance', tol=2e-4)
        ck.count(states=len(mine), transitions=len(mine), traces=1)


def figure_sb(ck):
    r, plots = run_tab('experiments/tabulators/plot_sb.py', make_gp)
    Ns = (2, 4, 8, 16, 32, 64)
    for N in Ns[1:3]:
        a = ['--d', 2, '--nsamples', 2, '--nparticles', N, '--id', 7]
        cmds = {f'filter-{x}': ('experiments/sb/filter.py', a + ['--x0', x]) for x in ('proper', 'heuristic')}
        cmds['gibbs-eb'] = ('experiments/sb/gibbs.py', a + ['--explicit_backward'])
        known_names(ck, [n for n in r.loaded if f'-{N}-' in n], cmds, SB, 7, 'the figure')
    for i, method in enumerate(('filter-proper', 'filter-heuristic', 'gibbs-eb')):
        e = np.array([[errors(f'./sb/results/{method}-{N}-{mc}.npz')[1] for N in Ns] for mc in range(100)])
        label = ('PF (ideal)', 'PF (approximate)', 'Gibbs-CSMC')[i]
        mine = [p for p in plots if p[0] == 'plot' and p[3].get('label') == label]
        ck.require(len(mine) == 1, 'figure', f'{len(mine)} curves are called {label}')
        ck.close(mine[0][2][0], Ns, 'figure', 'numbers of particles')
        ck.close(mine[0][2][1], e.mean(0), 'figure', f'curve of {method}', tol=1e-6)
        band = np.quantile(e, [0.05, 0.95], axis=0)
        ck.require(any(np.allclose(np.stack(p[2][1:3]), band, rtol=1e-6) for p in plots if p[0] == 'fill'), 'figure', f'no band of {method}')
        ck.count(states=e.size, transitions=e.size, traces=1)


def figure_contours(ck):
    Dc = 100
    def make(name):
        mean, cov = gp_of(name, Dc)
        chain = any(s in name for s in ('gibbs', 'pmcmc'))
        return dict(samples=sample_array(name, *((NCH,) if chain else ()), 120, Dc), gp_mean=mean, gp_cov=cov)

    r, plots = run_tab('experiments/tabulators/plot_toy_contours.py', make)
    label = dict(csgm='CSGM', filter='PF', gibbs='Gibbs-CSMC', twisted='TPF')
    for N in (10, 100):
        known_names(ck, [n for n in r.loaded if f'-{N}-66' in n or 'csgm' in n], toy_names('const', N, 66), GP_STUBS + [EM], 66, 'the figure')
    cons = [p for p in plots if p[0] == 'contour']
    names = sorted(set(r.loaded))
    sel = np.array([60, 66])
    used, where = [], []
    N_of = lambda n: None if 'csgm' in n else int(n.split('-')[-2])
    for n in names:
        s = make(n)
        chains = s['samples'] if s['samples'].ndim == 3 else s['samples'][None]
        mom = [moments(x) for x in chains]
        laws = [(s['gp_mean'], s['gp_cov']), (np.mean([a for a, _ in mom], 0), np.mean([b for _, b in mom], 0))]
        kind = n.split('/')[-1].split('-const')[0]
        title = label.get(kind.split('-')[0], kind.replace('pmcmc', 'PMCMC'))
        panels = []
        for (m, C), what in zip(laws, ('the posterior', 'the samples')):
            m, C = m[sel], C[np.ix_(sel, sel)]
            hits = []
            for p in cons:
                X, Y, Z = (np.asarray(v) for v in p[2][:3])
                z = np.stack([X, Y], -1) - m
                want = np.exp(-0.5 * np.einsum('...i,ij,...j', z, np.linalg.inv(C), z)) / (2 * np.pi * np.sqrt(np.linalg.det(C)))
                if np.allclose(Z, want, rtol=1e-6, atol=1e-9):
                    hits.append(p)
            ck.require(hits, 'figure', f'contours of {what} of {n} are not drawn')
            panels.append({id(p[1]): p[1] for p in hits})
        ck.require(set(panels[0]) == set(panels[1]), 'figure', f'truth and approximation of {n} are drawn in different panels')
        used += panels[0]
        for ax in panels[0].values():
            col, row = ax.get_subplotspec().colspan, ax.get_subplotspec().rowspan
            titles = {a.get_title() for a in ax.figure.axes if a.get_subplotspec().colspan == col} - {''}
            ck.require(titles == {title}, 'figure', f'{n} is shown in the column {titles}')
            other = {N for N, m in where if m == row.start} | {N_of(n)}
            ck.require(len(other - {None}) <= 1, 'figure', f'a row shows results with {other} particles')
            where.append((N_of(n), row.start))
        ck.count(states=1, transitions=len(cons), traces=1)
    ck.require(2 * len(used) == len(cons) and len(set(used)) == len(used), 'figure', f'{len(cons)} contour sets in {len(used)} panels')


def numpyro(axis_default=0):
    """The autocorrelation of numpyro: normalised, along an axis."""
    def ac(x, axis=0):
        x = np.moveaxis(np.asarray(x, float), axis, 0)
        z = x - x.mean(0)
        n = len(z)
        out = np.stack([(z[:n - k] * z[k:]).sum(0) / (n - k) for k in range(n)])
        return np.moveaxis(out / out[:1], 0, axis)

    m, d = types.ModuleType('numpyro'), types.ModuleType('numpyro.diagnostics')
    d.autocorrelation = ac
    m.diagnostics = d
    return [('numpyro', m), ('numpyro.diagnostics', d)], ac


def figure_autocorr_toy(ck):
    mods, ac = numpyro()
    make = lambda name: dict(samples=np.cumsum(sample_array(name, NCH, 110, 2), axis=1))
    r, plots = run_tab('experiments/tabulators/plot_autocorrs_toy.py', make, modules=mods)
    lines = [p for p in plots if p[0] == 'plot']
    per = 100
    names = sorted(set(r.loaded))
    for N in (10, 100):
        known_names(ck, [n for n in names if f'-{N}-7.' in n], toy_names('const', N, 7), GP_STUBS + [EM], 7, 'the figure')
    groups = {}
    for n in names:
        kind = re.sub(r'-\d+\.npz$', '', n.split('/')[-1]).replace('-const', '').replace('gibbs-eb', 'Gibbs-CSMC').replace('pmcmc', 'PMCMC')
        groups.setdefault(kind, []).append(n)
    ck.require(sorted(p[3]['label'] for p in lines) == sorted(groups), 'figure', f'curves {[p[3]["label"] for p in lines]} of results {sorted(groups)}')
    for p in lines:
        mine = groups[p[3]['label']]
        want = np.mean([np.max(np.mean([ac(c)[:100] for c in make(n)['samples']], axis=0), axis=-1) for n in mine], axis=0)
        ck.require(len(mine) == per, 'figure', f'the curve {p[3]["label"]} is made of {len(mine)} results')
        ck.close(np.asarray(p[2][0]), np.arange(100), 'figure', 'lags')
        ck.close(np.asarray(p[2][1]), want, 'figure', f'curve {p[3]["label"]}', tol=1e-8)
        ck.count(states=per, transitions=per, traces=1)


def figure_trace(ck):
    make = lambda name: dict(samples=sample_array(name, 2, 10000, 2))
    r, plots = run_tab('experiments/tabulators/plot_pmcmc_trace.py', make)
    known_names(ck, r.loaded, toy_names('const', 10, 0), GP_STUBS + [EM], 0, 'the figure')
    lines = [p for p in plots if p[0] == 'plot']
    names = sorted(set(r.loaded))
    ck.require(len(lines) == 3 == len(names), 'figure', f'{len(lines)} curves')
    for n in names:
        mine = [p for p in lines if n.split('pmcmc-')[1].split('-')[0] in re.findall(r'[\d.]+', p[1].get_title())]
        ck.require(len(mine) == 1, 'figure', f'{len(mine)} panels of {n}')
        x, y = np.asarray(mine[0][2][0]), np.asarray(mine[0][2][1])
        ck.close(y, make(n)['samples'][0, x, 0], 'figure', f'trace of {n}')
        ck.count(states=len(x), transitions=len(x), traces=1)


IMG_METHODS = dict(filter='', gibbs='', pmcmc='', twisted='_twisted', csgm='_csgm')


def image_names(ck, kind, method, N, k, task=None):
    """The arrays and pictures that the image scripts save for the k-th image."""
    task = task or Task(kind, 15 if kind == 'inpainting' else 4, 'mnist')
    what = IMG_METHODS[method.split('-')[0]]
    kw = dict(nsamples=2, ny0s=k + 1, start_from=k)
    kw.update({} if what else dict(method=method))
    kw.update({} if method == 'csgm' else dict(nparticles=N))
    r = go(task, task.path(what), task.argv(**kw))
    return saved(r), dict(r.images), task


def table_images(ck):
    H = 4
    seen = []

    def make(name):
        return dict(test_img=sample_array(name, H, H, 1)) if name.endswith('true.npz') else sample_array(name, 100, H, H, 1)

    def metric(tag):
        def f(a, b, **k):
            seen.append((tag, np.array(a), np.array(b), k))
            return float(np.mean((np.asarray(a) - np.asarray(b)) ** 2)) + (1. if tag == 'ssim' else 0.)
        return f

    sk, skm = types.ModuleType('skimage'), types.ModuleType('skimage.metrics')
    skm.structural_similarity, skm.peak_signal_noise_ratio = metric('ssim'), metric('psnr')
    sk.metrics = skm
    lp, to = types.ModuleType('lpips'), types.ModuleType('torch')
    lp.LPIPS = lambda net=None: types.SimpleNamespace(forward=lambda a, b: 0.)
    to.Tensor = np.asarray
    r, _ = run_tab('experiments/tabulators/tabulate_imgs.py', make, modules=[('skimage', sk), ('skimage.metrics', skm), ('lpips', lp), ('torch', to)])
    lines = [x for x in r.texts.splitlines() if 'PSNR' in x]
    res = [n for n in r.loaded if n.endswith('.npy')]
    true = [n for n in r.loaded if n.endswith('true.npz')]
    methods = [x.split('|')[0].strip() for x in lines]
    ck.require(len(set(methods)) == len(methods), 'table', 'a method is reported twice')
    csgm = image_names(ck, 'supr', 'csgm', 100, 1)[0]
    tk = {}
    for n in set(true):
        k = int(re.search(r'-(\d+)-true', n)[1])
        ck.require(k not in tk, 'table', f'two originals of number {k} are read')
        tk[k] = n
    ck.require(sorted(tk) == list(range(100)) and tk[1] in csgm, 'names', f'the originals {tk} are not the saved ones')
    for m, line in zip(methods, lines):
        names = image_names(ck, 'supr', m, 100, 1)[0]
        mine = {int(re.search(rf'-(\d+)-{re.escape(m)}\.npy', n)[1]): n for n in set(res) if re.search(rf'-\d+-{re.escape(m)}\.npy', n)}
        ck.require(sorted(mine) == list(range(100)), 'table', f'the row {m} is made of {len(mine)} results')
        ck.require(mine[1] in names, 'names', f'the row {m} reads {mine[1]}, which its script does not save: {sorted(names)}')
        p = []
        for k in range(100):
            t, x = np.clip(make(tk[k])['test_img'], 0, 1)[..., 0], np.clip(make(mine[k]), 0, 1)[..., 0]
            p += list(((t - x) ** 2).mean((1, 2)))
        got = numbers(line.split('PSNR')[1])
        ck.close(got[:4], [np.mean(p), np.std(p), np.mean(p) + 1, np.std(p)], 'table', f'row {m}: PSNR and SSIM', tol=2e-4)
        ck.count(states=len(p), transitions=len(p), traces=1)
    ck.require(seen and all(k.get('data_range') == 1 for _, _, _, k in seen), 'table', 'the range of the pixels is one')


def figure_autocorr_images(ck):
    mods, ac = numpyro()
    make = lambda name: np.cumsum(sample_array(name, 100, 2, 2, 1), axis=0)
    r, plots = run_tab('experiments/tabulators/plot_autocorrs_imgs.py', make, modules=mods)
    lines = [p for p in plots if p[0] == 'plot']
    made = {}
    for kind in ('inpainting', 'supr'):
        for m in ('gibbs-eb-ef', 'pmcmc-0.005'):
            for N in (10, 100):
                made.update({n: (kind, m, N) for n in image_names(ck, kind, m, N, 1)[0]})
    groups = {}
    for n in set(r.loaded):
        kind, data, N, mc, m = re.search(r'results_(\w+)/arrs/(mnist|celeba-\d+)-.*-(\d+)-(\d+)-(gibbs-eb-ef|pmcmc-0\.005)\.npy$', n).groups()
        if 'mnist' in data and mc == '1':
            ck.require(made.get(n) == (kind, m, int(N)), 'names', f'{n} is not saved by any experiment')
        panel = f'{"MNIST" if data == "mnist" else "CelebA"} {dict(inpainting="inpainting", supr="super-resolution")[kind]}'
        groups.setdefault((panel, f'{"Gibbs-CSMC" if "gibbs" in m else "PMCMC-0.005"}-{N}'), []).append(n)
    got = {(p[1].get_title(), p[3]['label']): p for p in lines}
    ck.require(len(lines) == len(groups) and set(got) == set(groups), 'figure', f'curves {sorted(got)} of results {sorted(groups)}')
    for g, p in got.items():
        want = np.mean([np.min(np.maximum(ac(make(n).reshape(100, -1))[:20], 0.), axis=-1) for n in groups[g]], axis=0)
        ck.require(len(groups[g]) == 100, 'figure', f'curve {g} is made of {len(groups[g])} results')
        ck.close(np.asarray(p[2][1]), want, 'figure', f'curve {g}', tol=1e-8)
        ck.count(states=100, transitions=100, traces=1)


def coalescence(ck, task):
    N = 3
    path = 'experiments/tabulators/plot_img_coalescence.py'

    def init(a, n):
        return tok(n, K + 1, a['nparticles'], *a['x0_shape']), tok(9)

    plots = []

    def plot(self, *a, **k):
        plots.append(a)
        return [types.SimpleNamespace()]

    quiet = lambda *a, **k: None
    argv = ['--dataset', task.dataset, '--rect_size', task.size, '--sde', task.sde, '--test_nsteps', K * 4, '--test_epoch', 77, '--nparticles', N]
    argv += ['--test_ema'] if task.ema else []
    A = matplotlib.axes.Axes
    rc = dict(plt.rcParams)
    init2 = lambda a, n: (tok(n, K * 4 + 1, a['nparticles'], *a['x0_shape']), tok(9))
    try:
        r = execute(path, argv, stubs=[(make_st_nn, nn_stub), (gibbs_init, init2)], files=task.files(), digits=digit, loose=True,
                    patch=PATCH + [(A, 'plot', plot), (A, 'legend', quiet), (plt, 'legend', quiet), (plt, 'tight_layout', quiet), (plt, 'subplots_adjust', quiet)])
    finally:
        plt.rcParams.update(rc)
    c = first_call(r, 'gibbs_init')
    check_loaded(ck, r, task)
    ts = np.asarray(c.ts)
    ck.close(ts, np.linspace(0., task.T, 4 * K + 1), 'ts', 'time grid', tol=1e-6)
    mask = the_mask(c.args)
    sp = Split(mask, task)
    check_model(ck, c, task, Rev(task), sp, mask)
    check_unpack(ck, c.unpack, sp, {mask_name(c.args): mask}, task)
    check_sde(ck, task.ref, c.sde, ts)
    ck.require(c.method == 'debug' and c.nparticles == N and not c.marg_y, 'flag', 'options of the filter')
    x = np.asarray(c.out[0]).reshape(4 * K + 1, N, -1)
    every = 4 * K // 10
    sd = 2 * x.std(axis=1)
    want = [x[::every, p, 6] for p in range(N)] + [sd[::every, j] for j in range(sd.shape[1])] + [np.quantile(sd, 0.95, axis=-1)[::every]]
    ck.require(len(plots) == len(want), 'figure', f'{len(plots)} curves')
    for a, w in zip(plots, want):
        ck.close(np.asarray(a[0]), ts[::every], 'figure', 'times', tol=1e-5)
        ck.close(np.asarray(a[1]), w, 'figure', 'a curve', tol=1e-4)
    ck.count(states=len(want), transitions=len(want), traces=1)


class Pictures:
    """In place of PIL: every picture file is a fixed function of its name."""

    def __init__(self):
        self.opened = []

    def open(self, name):
        self.opened.append(str(name))
        return Picture(str(name))


class Picture:
    def __init__(self, name):
        self.name = name

    def resize(self, *a, **k):
        return self

    def __array__(self, *a, **k):
        return sample_array(self.name, 3, 3)


def position(ax):
    """The position of a panel among the panels of its figure."""
    return ax.figure.axes.index(ax)


def figure_images(ck, path, task, N, y0s, ncols, nfigs):
    """The pictures shown belong to the image and the methods, and the experiments save them."""
    from PIL import Image
    pics, count = Pictures(), [0]

    def done(*a, **k):
        count[0] += 1
        if count[0] == nfigs:
            raise Stop()

    r, plots = run_tab(path, lambda n: None, patch=[(Image, 'open', pics.open), (plt, 'savefig', done)])
    methods = ('filter', 'gibbs-eb-ef', 'pmcmc-0.005', 'twisted', 'csgm')
    shows = [p for p in plots if p[0] == 'imshow']
    figs = list({id(p[1].figure): p[1].figure for p in shows}.values())
    ck.require(len(figs) == nfigs, 'figure', f'{len(figs)} figures')
    stem = lambda n: re.sub(r'-\d+\.png$', '', n)
    for fig, y in zip(figs, y0s):
        made = {}
        for m in methods:
            made.update({(stem(n) if re.search(rf'{re.escape(m)}-\d+\.png$', n) else n): m for n in image_names(ck, task.kind, m, N, y, task)[1]})
        rows = {}
        for p in shows:
            if p[1].figure is fig:
                rows.setdefault(position(p[1]) // ncols, {})[position(p[1]) % ncols] = (p[1], np.asarray(p[2][0]))
        found = {n: sample_array(n, 3, 3) for n in set(pics.opened)}
        name_of = lambda img: next((n for n, v in found.items() if np.array_equal(v, img)), None)
        ck.require(len(rows) == len(methods) and all(len(q) == ncols for q in rows.values()), 'figure', f'{len(rows)} rows')
        picks, shown = [], []
        for row, q in sorted(rows.items()):
            n0, n1 = name_of(q[0][1]), name_of(q[1][1])
            ck.require(n0 in made and n0.endswith('corrupt-lr.png' if task.kind == 'supr' else 'corrupt.png'), 'names', f'image {y}, row {row}: corrupted image {n0}')
            ck.require(n1 in made and n1.endswith('true.png'), 'names', f'image {y}, row {row}: original {n1}')
            ns = [name_of(q[c][1]) for c in range(2, ncols)]
            ms = {made.get(stem(n)) for n in ns}
            ck.require(None not in ms and len(ms) == 1, 'names', f'image {y}, row {row} shows {ns}')
            shown += ms
            picks.append([int(re.search(r'-(\d+)\.png$', n)[1]) for n in ns])
            ck.require(len(set(ns)) == ncols - 2, 'figure', f'image {y}, row {row} shows a sample twice')
        ck.require(shown == list(methods), 'figure', f'the rows are {shown}')
        ck.require(all(x == picks[0] for x in picks), 'figure', 'the rows show samples of different numbers')
        titles = [rows[0][c][0].get_title() for c in range(ncols)]
        ck.require(titles == ['corrupt', 'true'] + [f'sample {i}' for i in range(ncols - 2)], 'figure', f'columns {titles}')
        ck.count(states=len(rows) * ncols, transitions=len(shows), traces=1)


def sb_names(yid):
    out, true, y0 = {}, None, None
    for m in ('filter', 'gibbs'):
        t = SbTask(4, 'lin')
        t.files = lambda t=t: {**SbTask.files(t), 'checkpoints/sb_mnist_lin_9.npz': dict(param_fwd=FWD, param_bwd=BWD)}
        r = go(t, 'experiments/sb_imgs/supr.py', ['--sb_step', 9, '--method', m, '--y0_id', yid, '--test_nsteps', K, '--nsamples', 2, '--nparticles', 100],
               stubs=IMG_STUBS + [EM])
        out.update(saved(r))
        out.update(r.images)
        true = trues_of(r)[0]
        mask = the_mask(r.of('gibbs_init')[0].args)
        y0 = np.asarray(r.of('gibbs_init')[0].y0)
    return out, true, y0, Split(mask, t), t


STARTS = {'random': 'random', 'zeros': 'blank', 'blank': 'blank', 'interpol': 'interp'}


def clip_img(x):
    return np.clip(x, 0., 1.)[..., 0]


def figure_sb_images(ck):
    from PIL import Image
    pics = Pictures()
    make = lambda n: dict(test_img=sample_array(n, 5, 5, 1)) if 'true' in n else sample_array(n, 100, 5, 5, 1)
    r, plots = run_tab('experiments/tabulators/plot_sb_imgs.py', make, patch=[(Image, 'open', pics.open)])
    read = set(r.loaded) | set(pics.opened)
    yid = int(re.search(r'-(\d+)-true', [n for n in r.loaded if 'true' in n][0])[1])
    made = sb_names(yid)[0]
    ck.require(all(n in made for n in read), 'names', f'{sorted(n for n in read if n not in made)} is not saved by any experiment')
    content = {(n, None): clip_img(make(n)['test_img']) for n in read if 'true' in n}
    content.update({(n, None): sample_array(n, 3, 3) for n in read if n.endswith('.png')})
    content.update({(n, i): clip_img(v) for n in read if n.endswith('.npy') for i, v in enumerate(make(n))})
    what = lambda img: next((k for k, v in content.items() if v.shape == np.shape(img) and np.allclose(v, img)), None)
    shows = [p for p in plots if p[0] == 'imshow']
    figs = list({id(p[1].figure): p[1].figure for p in shows}.values())
    ck.require(len(figs) == 2, 'figure', f'{len(figs)} figures')
    for p in shows:
        k, t = what(p[2][0]), p[1].get_title()
        ck.require(k is not None, 'figure', f'the panel "{t}" shows no result')
        if p[1].figure is figs[0]:
            want = ('-corrupt-lr.png' if t == 'Input' else '-true.npz' if t == 'Truth' else '-gibbs-eb-ef-' if 'Gibbs' in t else
                    '-filter-' + next((v for n, v in STARTS.items() if n in t), '?'))
            ck.require(want in k[0], 'figure', f'the panel "{t}" shows {k}')
    rows = {}
    for p in shows:
        if p[1].figure is figs[1]:
            rows.setdefault(position(p[1]) // 12, {})[position(p[1]) % 12] = what(p[2][0])
    kinds = []
    for row, q in sorted(rows.items()):
        ck.require(len(q) == 12 and 'corrupt-lr' in q[0][0] and 'true' in q[1][0], 'figure', f'row {row}: {q[0]}, {q[1]}')
        fs, idx = {q[c][0] for c in range(2, 12)}, [q[c][1] for c in range(2, 12)]
        ck.require(len(fs) == 1 and idx == sorted(set(idx)), 'figure', f'row {row} shows {sorted(fs)}, samples {idx}')
        kinds += fs
    ck.require(len(set(kinds)) == 4, 'figure', f'rows of {kinds}')
    ck.count(states=len(content), transitions=len(shows), traces=1)


def anime(ck):
    from PIL import Image
    import matplotlib.animation as ma
    pics, films = Pictures(), []
    pics_read = lambda n: Picture28(str(n)) if not pics.opened.append(str(n)) else None

    class Film:
        def __init__(self, fig, func, frames=None, init_func=None, **k):
            self.fig, self.func, self.frames, self.init = fig, func, frames, init_func
            films.append(self)

        def save(self, *a, **k):
            pass

    made, true, y0, sp, t = sb_names(9)
    make = lambda n: (true if 'true' in n else sample_array(n, 28, 28, 1) if 'init' in n else sample_array(n, 2, 28, 28, 1) if n.endswith('.npy')
                      else t.files()['mnist.npz'])
    make = lambda n, make=make: np.concatenate([make(n)] * 20) if n.endswith('.npy') and 'init' not in n else make(n)
    quiet = lambda *a, **k: None
    rc = dict(plt.rcParams)
    try:
        r = execute('experiments/tabulators/plot_sb_imgs_anime.py', [], files=Named(make), digits=digit, loose=True,
                    patch=PATCH + [(Image, 'open', pics_read), (ma, 'FuncAnimation', Film), (plt, 'tight_layout', quiet), (plt, 'subplots_adjust', quiet)])
    finally:
        plt.rcParams.update(rc)
    read = [n for n in {*r.loaded, *pics.opened} if 'mnist.npz' not in n]
    ck.require(all(n in made for n in read), 'names', f'{sorted(n for n in read if n not in made)} is not saved by any experiment')
    pf, = [n for n in read if '-filter-' in n]
    gb, = [n for n in read if '-gibbs-eb-ef-' in n]
    ini, = [n for n in read if '-gibbs-init' in n]
    start = pf.split('-filter-')[1]
    ck.require(gb.split('-gibbs-eb-ef-')[1] == start and ini.split('-gibbs-init')[1].lstrip('-') in (start, '.npy') and ini in made, 'figure',
               f'samples of different starts: {pf}, {gb}, {ini}')
    film, = films
    chain = np.concatenate([make(ini)[None], make(gb)])
    frames = list(film.frames)
    film.init()
    past = set()
    for fr in frames:
        film.func(fr)
        for ax in film.fig.axes:
            if not ax.images:
                continue
            title, img = ax.get_title(), np.asarray(ax.images[0].get_array(), float)
            if title in ('Input', 'Truth'):
                want = sample_array(pics.opened[0], 28, 28) if title == 'Input' else clip_img(true['test_img'])
                ck.close(img, want, 'figure', f'the panel {title} of frame {fr}', tol=1e-5)
                continue
            i = int(title.split()[-1])
            key = (title.rsplit(' ', 1)[0], i)
            want = clip_img(make(pf)[i]) if title.startswith('PF') else clip_img(chain[i])
            if not np.allclose(img, want, atol=1e-5):  # before the first sample: the start
                ck.require(i == 0 and key not in past, 'figure', f'the panel "{title}" of frame {fr} shows another sample')
                ck.close(sp.parts(img[..., None])[1], y0, 'figure', 'the start keeps the observed pixels', tol=1e-5)
                if start == 'blank.npy':
                    ck.close(sp.parts(img[..., None])[0], 0 * sp.parts(img[..., None])[0], 'figure', 'the start is blank')
            else:
                past.add(key)
    ck.require(len(past) == 2 * 30, 'figure', f'{len(past)} samples are shown')
    ck.count(states=len(frames), transitions=len(past), traces=1)


class Picture28(Picture):
    def __array__(self, *a, **k):
        return sample_array(self.name, 28, 28)


def run(ck):
    tasks = [Task('inpainting', 4), Task('supr', 4, rnd=True)] + ([Task('inpainting', 3, sde='const'), Task('supr', 2)] if ck.thorough else [])
    for t in tasks:
        ck.case('same-images-' + t.name(), same_images, ck, t)
    n = ['--nparticles', 3]
    toy = [('experiments/toy/gp_filter.py', n), ('experiments/toy/gp_gibbs.py', n + ['--explicit_backward', '--nchains', 2]),
           ('experiments/toy/gp_pmcmc.py', n + ['--nchains', 2]), ('experiments/toy/gp_twisted.py', n), ('experiments/toy/gp_csgm.py', [])]
    sb = [('experiments/sb/filter.py', n + ['--x0', 'proper']), ('experiments/sb/filter.py', n + ['--x0', 'heuristic']),
          ('experiments/sb/gibbs.py', n + ['--explicit_backward'])]
    for i in (1, 50, 66, 99, 666) if ck.thorough else (66, 99):
        ck.case(f'same-gp-{i}', same_gp, ck, toy, [i], 2)
        ck.case(f'same-sb-{i}', same_gp, ck, sb, [i], 2)
    for f in (table_toy, figure_sb, figure_contours, figure_autocorr_toy, figure_trace, table_images, figure_autocorr_images, figure_sb_images, anime):
        ck.case(f.__name__.replace('_', '-'), f, ck)
    ck.case('figure-images', figure_images, ck, 'experiments/tabulators/plot_imgs.py', Task('supr', 4, 'mnist'), 100, [94], 5, 1)
    ck.case('figure-images-appendix', figure_images, ck, 'experiments/tabulators/plot_imgs_appendix.py', Task('supr', 2, 'celeba-64'), 10, [0, 1], 14, 2)
    for t in [Task('inpainting', 4), Task('inpainting', 3, sde='const', ema=True)]:
        ck.case('coalescence-' + t.name(), coalescence, ck, t)
    ck.bound('three test images and ten commands per image task, every file of the shipped tables and figures (synthetic results), two problem numbers')
    ck.assume('results are synthetic (a fixed function of the file name); numpyro, skimage, lpips, torch are not installed and replaced by definitions or recorders')

"""The shipped drivers run the experiments that the tables and figures need.

Every driver (experiments/*.sh, experiments/bashes/*.sh) is executed by bash in a scratch copy of the folder, for every
argument of a grid, with `python` and `sbatch` replaced by recorders.  The recorded jobs end only when the controller says
so: one after the other, in several orders, and after each end the controller waits for what the driver does next.  The
commands issued are then parsed by the argument parser of the script that they name, and the names of the results that
they make (learnt by executing the script) are compared with the names that the tabulators read."""
import argparse
import collections
import os
import re
import shutil
import subprocess
import tempfile
import time
import types
import numpy as np
import jax.numpy as jnp
import matplotlib.pyplot as plt
from mc import rng
from mc.report import Violation
from mc.scripts import execute, Stop
from mc.p23 import STUBS as GP_STUBS, SB, first_call
from mc.p24 import Task, SbTask, go, digit, PATCH, STUBS as IMG_STUBS, K, FWD, BWD, PARAM, EMA
from mc.p26 import run_tab, make_gp, sample_array, numpyro, full, saved, EM, NCH, Pictures
from mc.p25 import nn_stub
from fbs.nn.models import make_st_nn
from fbs.nn.utils import make_optax_kernel
from fbs.sdes.simulators import reverse_simulator
from fbs.data.images import MNISTRestore, CelebAHQRestore

EXP = os.path.join(rng.REPO, 'experiments')
JOB = r'''#!/bin/bash
me="$MC_LOG/$BASHPID"
printf '%s\0' "$PWD" "$XLA_PYTHON_CLIENT_MEM_FRACTION" "$SLURM_ARRAY_TASK_ID" "$@" > "$me.args"
: > "$me.start"
exec 9<> "$MC_LOG/fifo"
while [[ -n "$MC_HOLD" && ! -e "$me.go" ]]; do read -r -t 0.01 -u 9; done
: > "$me.done"
'''
BATCH = r'''#!/bin/bash
printf '%s\0' "$PWD" "" "" "$@" > "$MC_LOG/$BASHPID.sbatch"
'''
Job = collections.namedtuple('Job', 'script options array fraction cwd')


# ---- running a driver ---------------------------------------------------------------------------------------------------
class Box:
    """A scratch copy of the folder of the experiments, without the scripts themselves."""

    def __enter__(self):
        self.root = tempfile.mkdtemp(prefix='mc-drivers-')
        self.exp = os.path.join(self.root, 'work', 'fbs', 'experiments')
        self.bin, self.log = os.path.join(self.root, 'bin'), os.path.join(self.root, 'log')
        for d in (self.bin, self.log, os.path.join(self.root, 'home'), os.path.join(self.root, 'work/fbs/venv/bin')):
            os.makedirs(d)
        for f in ('home/.bashrc', 'work/fbs/venv/bin/activate'):
            open(os.path.join(self.root, f), 'w').close()
        for d, _, files in os.walk(EXP):
            t = os.path.join(self.exp, os.path.relpath(d, EXP))
            os.makedirs(t, exist_ok=True)
            for f in files:
                if f.endswith('.sh'):
                    shutil.copy(os.path.join(d, f), t)
        for n, text in (('python', JOB), ('python3', JOB), ('sbatch', BATCH)):
            self.tool(n, text)
        self.tool('srun', '#!/bin/bash\nexec "$@"\n')
        for n in ('nvidia-smi', 'module', 'ml', 'sleep', 'echo'):
            self.tool(n, '#!/bin/bash\nexit 0\n')
        self.tool('tee', '#!/bin/bash\nwhile read -r x; do :; done\n')
        self.tool('mkdir', '#!/bin/bash\nprintf "%s\\0" "$PWD" "$@" > "$MC_LOG/$BASHPID.mkdir"\n')
        for n, at in (('bash', '/bin/bash'), ('find', '/usr/bin/find'), ('wc', '/usr/bin/wc'), ('ls', '/bin/ls'), ('seq', '/usr/bin/seq'),
                      *((t, f'/usr/bin/{t}') for t in ('sh', 'cat', 'date', 'dirname', 'basename', 'expr', 'grep', 'sed', 'awk', 'cut', 'tr', 'sort', 'uniq',
                                                       'head', 'tail', 'printf', 'env', 'test', 'true', 'false', 'nproc', 'realpath', 'hostname'))):
            os.symlink(at, os.path.join(self.bin, n))
        os.mkfifo(os.path.join(self.log, 'fifo'))
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.root, ignore_errors=True)

    def tool(self, name, text):
        p = os.path.join(self.bin, name)
        with open(p, 'w') as f:
            f.write(text)
        os.chmod(p, 0o755)

    def start(self, script, args, array=None, hold=False):
        for f in os.listdir(self.log):
            if f != 'fifo':
                os.remove(os.path.join(self.log, f))
        env = dict(PATH=self.bin, HOME=os.path.join(self.root, 'home'), WRKDIR=os.path.join(self.root, 'work'), MC_LOG=self.log,
                   MC_HOLD='1' if hold else '')
        if array is not None:
            env['SLURM_ARRAY_TASK_ID'] = str(array)
        return subprocess.Popen(['/bin/bash', script, *map(str, args)], cwd=self.exp, env=env, stdin=subprocess.DEVNULL,
                                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)

    def seen(self, kind):
        return sorted((int(f.split('.')[0]) for f in os.listdir(self.log) if f.endswith('.' + kind)),
                      key=lambda i: (os.stat(os.path.join(self.log, f'{i}.{kind}')).st_mtime_ns, i))

    def read(self, i, kind):
        with open(os.path.join(self.log, f'{i}.{kind}')) as f:
            return f.read().split('\0')[:-1]

    def job(self, i):
        cwd, frac, array, *argv = self.read(i, 'args')
        argv = [a for a in argv if a != '-u']
        if not argv or argv[0].startswith('-'):
            raise rng.Unsupported(f'a driver runs python {argv}')
        return Job(argv[0], tuple(argv[1:]), array, float(frac) if frac else None, cwd)

    def made_dirs(self):
        """Folders that a driver made (with parents)."""
        out = []
        for i in self.seen('mkdir'):
            cwd, *a = self.read(i, 'mkdir')
            out += [(os.path.normpath(os.path.join(cwd, d)), '-p' in a) for d in a if not d.startswith('-')]
        for d, p in out:
            if not d.startswith(self.exp):
                raise rng.Unsupported(f'a driver makes the folder {d}')
            (os.makedirs if p else os.mkdir)(d, **(dict(exist_ok=True) if p else {}))


def finish(box, p, limit=120.):
    """Let everything run."""
    try:
        p.wait(limit)
    except subprocess.TimeoutExpired:
        raise rng.Unsupported('a driver does not end')
    box.made_dirs()


def schedule(ck, box, script, args, order, quiet=0.03):
    """All jobs wait for the controller, which ends them one by one.  Returns the jobs."""
    p = box.start(script, args, hold=True)
    released, states, t0 = set(), 0, time.time()
    try:
        while True:
            before = None
            while True:          # until nothing new happens
                now = (tuple(box.seen('start')), tuple(box.seen('done')), p.poll())
                if now == before:
                    break
                before = now
                time.sleep(quiet)
            ended = p.poll() is not None     # read first: what ends later is not held against the driver
            started, done = box.seen('start'), set(box.seen('done'))
            running = [i for i in started if i not in done]
            jobs = {i: box.job(i) for i in running}
            frac = sum(j.fraction or 0. for j in jobs.values())
            ck.require(frac <= 1. + 1e-9, 'memory', f'{script} {args}: {len(running)} jobs run at once that take {frac:.2f} of the memory')
            states += 1
            if ended:
                ck.require(not running, 'wait', f'{script} {args} ends before {[" ".join((j.script, *j.options)) for j in jobs.values()][:3]}')
                break
            held = [i for i in running if i not in released]
            if held:
                i = held[order(len(held))]
                released.add(i)
                open(os.path.join(box.log, f'{i}.go'), 'w').close()
            elif time.time() - t0 > 300:
                raise rng.Unsupported('a driver does not end')
            else:
                time.sleep(quiet)
        if p.returncode != 0:
            ck.require(False, 'fails', f'{script} {args} ends with {p.returncode}')
        out = [box.job(i) for i in box.seen('start')]
        box.made_dirs()
        ck.count(states=states, transitions=len(released), traces=1)
        return out
    finally:
        if p.poll() is None:
            os.killpg(p.pid, 9)
        else:
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
        p.wait()


def array_of(path):
    """The task numbers that the header of a batch file asks for."""
    with open(path) as f:
        for line in f:
            m = re.match(r'#SBATCH\s+(?:-a|--array)[= ]\s*(\S+)', line)
            if m:
                ids = []
                for part in m[1].split('%')[0].split(','):
                    q = re.fullmatch(r'(\d+)(?:-(\d+)(?::(\d+))?)?', part)
                    ids += range(int(q[1]), int(q[2] or q[1]) + 1, int(q[3] or 1))
                return ids
    return None


def submitted(ck, box, script, args):
    """The batch files that a driver submits."""
    p = box.start(script, args)
    finish(box, p)
    ck.require(p.returncode == 0, 'fails', f'{script} {args} ends with {p.returncode}')
    out = []
    for i in box.seen('sbatch'):
        cwd, _, _, *argv = box.read(i, 'sbatch')
        argv = [a for a in argv]
        if not argv or argv[0].startswith('-'):
            raise rng.Unsupported(f'sbatch {argv}')
        f = os.path.normpath(os.path.join(cwd, argv[0]))
        ck.require(os.path.isfile(f), 'missing', f'{script} {args} submits {argv[0]}, which does not exist')
        out.append((os.path.relpath(f, box.exp), argv[1:]))
    return out, [box.job(i) for i in box.seen('start')]


def leaf(ck, box, script, args):
    """The jobs of a batch file."""
    ids = array_of(os.path.join(box.exp, script))
    if ids is None:
        p = box.start(script, args)
        finish(box, p)
        ck.require(p.returncode == 0, 'fails', f'{script} {args} ends with {p.returncode}')
        ck.count(states=1, transitions=len(box.seen('start')))
        return [box.job(i) for i in box.seen('start')]
    out = []
    for k in ids:
        p = box.start(script, args, array=k)
        finish(box, p)
        jobs = [box.job(i) for i in box.seen('start')]
        ck.require(len(box.seen('done')) == len(jobs), 'wait', f'task {k} of {script} {args} ends before its jobs')
        out += jobs
        ck.count(states=1, transitions=len(jobs))
    return out


def campaign(ck, box, script, args):
    """All jobs of a top-level driver."""
    files, jobs = submitted(ck, box, script, args)
    for f, a in files:
        jobs = jobs + leaf(ck, box, f, a)
    return jobs


# ---- what a command means -------------------------------------------------------------------------------------------------
PARSED = {}


def parse(ck, box, job):
    """The options of the script, as its own parser understands them."""
    ck.require(os.path.realpath(job.cwd) == os.path.realpath(box.exp), 'folder', f'{job.script} is not run from the folder of the experiments')
    path = os.path.normpath(os.path.join('experiments', job.script))
    ck.require(os.path.isfile(os.path.join(rng.REPO, path)), 'missing', f'a driver runs {job.script}, which does not exist')
    k = (path, job.options)
    if k in PARSED:
        return PARSED[k]
    got = []
    orig = argparse.ArgumentParser.parse_args

    def parse_args(self, *a, **kw):
        got.append(orig(self, *a, **kw))
        raise Stop()

    try:
        execute(path, job.options, real=True, patch=[(argparse.ArgumentParser, 'parse_args', parse_args),
                                                      (argparse.ArgumentParser, '_print_message', lambda *a, **k: None)])
    except SystemExit:
        raise Violation('options', f'{job.script} does not accept the options {" ".join(job.options)}')
    if not got:
        raise rng.Unsupported(f'{job.script} does not use an argument parser')
    PARSED[k] = (path, vars(got[0]))
    return PARSED[k]


def experiments(ck, box, jobs):
    return [parse(ck, box, j) for j in jobs]


def key_of(e):
    return e[0], tuple(sorted((k, str(v)) for k, v in e[1].items()))


def same_experiments(ck, a, b, what):
    x, y = collections.Counter(map(key_of, a)), collections.Counter(map(key_of, b))
    d = list((x - y) + (y - x))
    ck.require(not d, 'same', f'{what}: {len(d)} experiments are run by one only, for instance {d[0] if d else ""}')


FAIR = ('d', 'nsamples', 'sde', 'ny0s', 'test_seed', 'test_nsteps', 'test_epoch', 'test_ema', 'start_from', 'rect_size', 'rate', 'rnd_mask', 'dataset',
        'marg', 'sb_step', 'id')


def fair(ck, es, what, but=()):
    """The options that define the problem are the same for all commands of a comparison."""
    seen = {}
    for path, o in es:
        for n in FAIR:
            if n in o and n not in but:
                old = seen.setdefault(n, (o[n], path))
                ck.require(old[0] == o[n], 'fair', f'{what}: {n} is {o[n]} for {path} and {old[0]} for {old[1]}')


def once(ck, es, what, ids=range(100)):
    """Every repetition of every method is run exactly once."""
    runs = {}
    for path, o in es:
        k = (path, tuple(sorted((n, str(v)) for n, v in o.items() if n != 'id')))
        runs.setdefault(k, []).append(o['id'])
    for k, v in runs.items():
        ck.require(sorted(v) == list(ids), 'once', f'{what}: {k[0]} is run for the repetitions {sorted(set(v))[:5]}..., {len(v)} in all')
    ck.count(states=len(runs), transitions=len(es))
    return len(runs)


# ---- names of results -----------------------------------------------------------------------------------------------------
NAMES = {}
TAG = 531


def argv_of(o, **new):
    o = {**o, **new}
    out = []
    for k, v in o.items():
        out += [f'--{k}'] if v is True else [] if v in (False, None) else [f'--{k}', v]
    return out


def gp_name(e):
    """The file that a run of a Gaussian experiment saves."""
    path, o = e
    k = key_of((path, {n: v for n, v in o.items() if n != 'id'}))
    if k not in NAMES:
        r = execute(path, argv_of(o, id=TAG, d=2, nsamples=2, **({'nchains': 2} if 'nchains' in o else {})),
                    stubs=(SB if '/sb/' in path else GP_STUBS + [EM]))
        n, = saved(r)
        if n.count(f'-{TAG}.') != 1:
            raise rng.Unsupported(f'the name {n} does not end with the number of the run')
        NAMES[k] = n
    return NAMES[k].replace(f'-{TAG}.', f'-{o["id"]}.')


def img_task(o, path):
    kind = 'inpainting' if 'inpainting' in path else 'supr'
    t = Task(kind, o['rect_size'] if kind == 'inpainting' else o['rate'], o['dataset'], o.get('rnd_mask', False), o['sde'], o['test_ema'])
    old = t.files

    def files():
        f = old()
        c = [n for n in f if n.startswith('checkpoints/')]
        for n in c:
            f[n.replace('_77.', f'_{o["test_epoch"]}.')] = f.pop(n)
        return f

    t.files = files
    return t


def img_names(e):
    """Names of the arrays and pictures of one image, as a function of its number; and what is loaded."""
    path, o = e
    k = key_of(e)
    if k not in NAMES:
        y, n = 53, 2
        t = img_task(o, path)
        r = go(t, path, argv_of(o, test_nsteps=K, ny0s=y + 1, start_from=y, nsamples=n))
        arrs, pics = set(saved(r)), set(r.images)
        for f in arrs | pics:
            if f.count(f'-{y}-') != 1:
                raise rng.Unsupported(f'the name {f} does not contain the number of the image once')
        last = {f for f in pics if f.endswith(f'-{n - 1}.png')}
        stems = {f[:-len(f'-{n - 1}.png')] for f in last}
        NAMES[k] = (y, arrs | {f for f in pics if not any(f == f'{s}-{i}.png' for s in stems for i in range(n))}, stems, list(r.loaded))
    return NAMES[k]


def img_made(e, folder=None):
    y, fixed, stems, _ = img_names(e)
    o = e[1]
    ks = range(o['start_from'], o['ny0s'])
    out = {f.replace(f'-{y}-', f'-{k}-') for f in fixed for k in ks}
    return out | {f'{s}-{i}.png'.replace(f'-{y}-', f'-{k}-', 1) for s in stems for k in ks for i in range(o['nsamples'])}


def check_folders(ck, box, names, what):
    for d in {os.path.dirname(n) for n in names}:
        ck.require(os.path.isdir(os.path.join(box.exp, d)), 'folder', f'{what}: results are saved in {d}, which neither exists nor is made by the driver')


def norm(n):
    return os.path.normpath(n)


def reads(ck, path, make, stop=None, **kw):
    """Every file that a tabulator reads; the folders of its figures are there."""
    from PIL import Image
    pics, figs = Pictures(), []

    def savefig(name, *a, **k):
        figs.append(str(name))
        if len(figs) == stop:
            raise Stop()

    r, _ = run_tab(path, make, patch=[(Image, 'open', pics.open), (plt, 'savefig', savefig)], **kw)
    ck.require(figs or 'tabulate' in path, 'figures', f'{path} saves no figure')
    for f in figs:
        ck.require(os.path.isdir(os.path.join(EXP, os.path.dirname(f))), 'folder', f'{path} saves its figure in {os.path.dirname(f)}, which does not exist')
    return {norm(n) for n in [*r.loaded, *pics.opened]}


# ---- cases ------------------------------------------------------------------------------------------------------------------
ORDERS = dict(first=lambda n: 0, last=lambda n: n - 1, middle=lambda n: n // 2)


def orders_of(ck):
    return ORDERS if ck.thorough else {k: ORDERS[k] for k in ('first', 'last')}


def parallel(ck, script, args, order):
    """A driver that runs jobs itself, under one order of their ends; the jobs are the ones of a free run."""
    with Box() as box:
        if not os.path.isfile(os.path.join(box.exp, script)):
            raise rng.Unsupported(f'{script} is gone')
        jobs = schedule(ck, box, script, args, ORDERS[order])
        free = leaf(ck, box, script, args)
        same_experiments(ck, experiments(ck, box, jobs), experiments(ck, box, free), f'{script} {args} under two schedules')
        twin = script[:-3] + '_local.sh'
        if os.path.isfile(os.path.join(box.exp, twin)):
            same_experiments(ck, experiments(ck, box, jobs), experiments(ck, box, leaf(ck, box, twin, args)), f'{script} and its local twin, {args}')


def gp_campaign(ck, script, argss, nmethods, want=None):
    made = {}
    with Box() as box:
        for args in argss:
            es = experiments(ck, box, campaign(ck, box, script, args))
            what = f'{script} {args}'
            n = once(ck, es, what)
            ck.require(n == nmethods, 'methods', f'{what}: {n} methods are compared instead of {nmethods}')
            fair(ck, es, what, but=('id',))
            if want:
                for path, o in es:
                    for k, v in want(args).items():
                        ck.require(k not in o or o[k] == v, 'argument', f'{what}: {path} is run with {k}={o.get(k)}')
            for e in es:
                f = gp_name(e)
                ck.require(made.setdefault(f, key_of(e)) == key_of(e), 'names', f'two experiments of {what} save {f}')
            check_folders(ck, box, [gp_name(e) for e in es], what)
    return {norm(n) for n in made}


def toy(ck, cluster):
    argss = [[N, sde, *([] if cluster is None else [cluster])] for N in (10, 100) for sde in ('const', 'lin')]
    if cluster is None:      # local: the jobs are run directly
        with Box() as box:
            for a in argss if ck.thorough else argss[1:2]:
                loc = experiments(ck, box, leaf(ck, box, 'run_toy_all_local.sh', a))
                clu = experiments(ck, box, campaign(ck, box, 'run_toy_all.sh', [*a, 'other']))
                same_experiments(ck, loc, clu, f'the GP experiment on a cluster and locally, {a}')
        return
    made = gp_campaign(ck, 'run_toy_all.sh', argss, 5, lambda a: dict(nparticles=a[0], sde=a[1], delta=0.005))
    mods, _ = numpyro()
    big = lambda name: (lambda g: dict(samples=sample_array(name, *((NCH,) if any(s in name for s in ('gibbs', 'pmcmc')) else ()), 120, 100),
                                       gp_mean=np.zeros(100), gp_cov=np.eye(100)))(0)
    other = {}
    with Box() as box:      # the other step sizes are run by hand with the driver of the method
        for d in ('0.01', '0.001'):
            for N in (10, 100):
                for e in experiments(ck, box, leaf(ck, box, f'bashes/toy_pmcmc{"_dardel" if cluster == "dardel" else ""}.sh', [N, 'const', d])):
                    other[norm(gp_name(e))] = 1
                    ck.require(e[1]['delta'] == float(d), 'argument', f'toy_pmcmc.sh runs with delta={e[1]["delta"]} instead of {d}')
    for path, make, kw in (('tabulate_toy', make_gp, {}), ('plot_autocorrs_toy', lambda n: dict(samples=sample_array(n, NCH, 110, 2)), dict(modules=mods)),
                           ('plot_toy_contours', big, {}), ('plot_pmcmc_trace', lambda n: dict(samples=sample_array(n, 2, 10000, 2)), {})):
        got = reads(ck, f'experiments/tabulators/{path}.py', make, **kw)
        lost = sorted(n for n in got if n not in made and n not in other)
        ck.require(not lost, 'closure', f'{path} reads {len(lost)} files that no driver makes, for instance {lost[:2]}')
        ck.count(states=len(got), transitions=len(got), traces=1)


def bridge(ck):
    made = gp_campaign(ck, 'run_sb_all.sh', [[]], 3 * 6)
    got = reads(ck, 'experiments/tabulators/plot_sb.py', make_gp)
    lost = sorted(n for n in got if n not in made)
    ck.require(not lost, 'closure', f'plot_sb reads {len(lost)} files that no driver makes, for instance {lost[:2]}')
    ck.count(states=len(got), transitions=len(got), traces=1)


SETTINGS = {'mnist': (10, 100), 'celeba-64': (2, 10)}


def images_of(ck, box, dataset, N):
    es = experiments(ck, box, campaign(ck, box, 'run_imgs_all.sh', [dataset, N]))
    what = f'run_imgs_all.sh {dataset} {N}'
    ck.require(len(es) == 10, 'methods', f'{what}: {len(es)} commands for five methods and two tasks')
    for kind in ('inpainting', 'supr'):
        fair(ck, [e for e in es if kind in e[0]], f'{what}, {kind}')
    fair(ck, es, what)
    for path, o in es:
        ck.require(o['dataset'] == dataset and o.get('nparticles', N) == N, 'argument', f'{what}: {path} is run with {o}')
    return es


def images(ck, dataset):
    with Box() as box:
        made, arrays = {}, {}
        for N in SETTINGS[dataset]:
            es = images_of(ck, box, dataset, N)
            for e in es:
                ck.require(e[1]['ny0s'] >= 100 and e[1]['start_from'] == 0, 'images', f'{e[0]} restores {e[1]["ny0s"]} images')
                for n in img_made(e):
                    own = not any(s in n for s in ('true', 'corrupt')) and 'csgm' not in n
                    ck.require(not own or made.setdefault(norm(n), key_of(e)) == key_of(e), 'names', f'two commands save {n}')
                    made.setdefault(norm(n), key_of(e))
                arrays.setdefault(N, []).extend(norm(f) for f in img_names(e)[1])
            check_folders(ck, box, [n for e in es for n in img_names(e)[1]], f'run_imgs_all.sh {dataset} {N}')
            # starting later: the same commands but for the first image
            for f in ('filter', 'gibbs', 'pmcmc', 'twisted', 'csgm'):
                a = [dataset] + ([] if f == 'csgm' else [N])
                base = experiments(ck, box, leaf(ck, box, f'bashes/imgs_{f}.sh', a))
                same_experiments(ck, base, [e for e in es if key_of(e) in set(map(key_of, base))], f'imgs_{f}.sh and run_imgs_all.sh')
                later = experiments(ck, box, leaf(ck, box, f'bashes/imgs_{f}.sh', a + [37]))
                same_experiments(ck, [(p, {**o, 'start_from': 37}) for p, o in base], later, f'imgs_{f}.sh {a} and started from image 37')
                if f == 'pmcmc':
                    q = experiments(ck, box, leaf(ck, box, 'bashes/imgs_pmcmc.sh', a + [0, 0.01]))
                    same_experiments(ck, [(p, {**o, 'method': o['method'].replace('0.005', '0.01')}) for p, o in base], q, 'imgs_pmcmc.sh with another step')
        closure_images(ck, dataset, set(made))
        loads(ck, box, dataset, es)


def closure_images(ck, dataset, made):
    mods, _ = numpyro()
    H = 4
    sk, skm = types.ModuleType('skimage'), types.ModuleType('skimage.metrics')
    skm.structural_similarity = skm.peak_signal_noise_ratio = lambda a, b, **k: 1.
    sk.metrics = skm
    lp, to = types.ModuleType('lpips'), types.ModuleType('torch')
    lp.LPIPS = lambda net=None: types.SimpleNamespace(forward=lambda a, b: 0.)
    to.Tensor = np.asarray
    tabs = [('tabulate_imgs', lambda n: dict(test_img=np.zeros((H, H, 1))) if n.endswith('true.npz') else np.zeros((100, H, H, 1)),
             dict(modules=[('skimage', sk), ('skimage.metrics', skm), ('lpips', lp), ('torch', to)])),
            ('plot_autocorrs_imgs', lambda n: np.cumsum(sample_array(n, 100, 2, 2, 1), axis=0), dict(modules=mods)),
            ('plot_imgs', None, {}),
            ('plot_imgs_appendix', None, dict(stop=2))]
    for path, make, kw in tabs:
        got = {n for n in reads(ck, f'experiments/tabulators/{path}.py', make, **kw) if f'/{dataset}-' in n}
        lost = sorted(n for n in got if n not in made)
        ck.require(not lost, 'closure', f'{path} reads {len(lost)} files that no driver makes, for instance {lost[:2]}')
        ck.count(states=len(got), transitions=len(got), traces=1)


def network(r):
    c = first_call(r, 'make_st_nn')
    nn = c.args['nn']
    return {k: getattr(nn, k) for k in ('dt', 'dim', 'upsampling') if hasattr(nn, k)}, tuple(np.ravel(c.args['dim_in']).tolist()), type(nn).__name__


def loads(ck, box, dataset, es):
    """The checkpoint that restoration loads is one that the training driver makes, for the same network and the same data."""
    for sde in {o['sde'] for _, o in es}:
        p = box.start('run_train.sh', [dataset, sde])
        finish(box, p)
        train, = experiments(ck, box, [box.job(i) for i in box.seen('start')])
        ck.require(train[1]['dataset'] == dataset and train[1]['sde'] == sde, 'argument', f'run_train.sh {dataset} {sde} trains on {train[1]}')
        files, net, data = trained(train)
        check_folders(ck, box, files, 'run_train.sh')
        for e in es:
            if e[1]['sde'] != sde:
                continue
            got = img_names(e)[3]
            want = {norm(n) for n in got if 'checkpoints' in n}
            ck.require(want and want <= {norm(f) for f in files}, 'checkpoint', f'{e[0]} loads {sorted(want)}, training saves {sorted(files)[-2:]}')
            paths = {norm(n) for n in got if 'checkpoints' not in n}
            ck.require(paths <= {'datasets/mnist.npz', 'datasets/celeba_hq64.npy'} and paths, 'data', f'{e[0]} reads {sorted(paths)}, which is not where the data is')
            ck.require(data == paths, 'data', f'training reads {sorted(data)}, {e[0]} reads {sorted(paths)}')
            ck.require(network(restored(e)) == net, 'network', f'{e[0]} restores with the network {network(restored(e))}, {net} is trained')
        ck.count(states=len(es), transitions=len(es), traces=1)


def restored(e):
    t = img_task(e[1], e[0])
    return execute(e[0], argv_of(e[1]), stubs=[(make_st_nn, None)], files=t.files(), digits=digit, loose=True, patch=PATCH, stop=('make_st_nn', 0))


def trained(e):
    """Names of the checkpoints of a training run, its network and its data, with a training step that does nothing."""
    path, o = e
    data, size = [], {'mnist': (60000, 28, 1)}.get(o['dataset']) or (29000, int(o['dataset'].split('-')[1]), 3)

    def init(self, key, data_path, *a, **k):
        data.append(norm(str(data_path)))
        self.n, self.image_shape, self.task = size[0], (size[1], size[1], size[2]), 'inpaint-15'
        self.xs = jnp.zeros((2, *self.image_shape))

    small = [(c, m, f) for c in (MNISTRestore, CelebAHQRestore) for m, f in
             (('__init__', init), ('init_enumeration', lambda self, *a, **k: jnp.arange(2)[None]),
              ('enumerate_subset', lambda self, *a, **k: self.xs))]
    kw = dict(digits=digit, loose=True, patch=small)
    net = network(execute(path, argv_of(o), stop=('make_st_nn', 0), stubs=[(make_st_nn, None)], **kw))
    kernels = lambda a, k: ((lambda p, s, key, xs: (p, s, 0.)), (lambda ema, p, *b: ema))
    r = execute(path, argv_of(o, batch_size=size[0]),
                stubs=[(make_st_nn, nn_stub), (make_optax_kernel, kernels), (reverse_simulator, lambda a, k: a['u0'])], **kw)
    return [full(k, v) for k, v in r.saved.items()] + r.figs, net, set(data)


def integrity(ck):
    """check_integrity counts what is there."""
    with Box() as box:
        per = {}
        for dataset, Ns in SETTINGS.items():
            for N in Ns:
                for e in images_of(ck, box, dataset, N):
                    y, fixed, _, _ = img_names(e)
                    for f in fixed:
                        if f.endswith('.npy') and 'init' not in f:
                            m = e[1].get('method', 'twisted' if 'twisted' in e[0] else 'csgm').replace('-0.005', '')
                            per[dataset, N, m, 'inpainting' if 'inpainting' in e[0] else 'supr'] = norm(f).replace(f'-{y}-', '-%d-')
                        for k in (0, 1):
                            p = os.path.join(box.exp, norm(f).replace(f'-{y}-', f'-{k}-'))
                            os.makedirs(os.path.dirname(p), exist_ok=True)
                            open(p, 'w').close()

        def report():
            p = subprocess.run(['/bin/bash', 'check_integrity.sh'], cwd=box.exp, env=dict(PATH=box.bin, HOME=box.root), capture_output=True, text=True, timeout=60)
            out, data = {}, None
            for line in p.stdout.splitlines():
                if re.fullmatch(r'Checking \w+', line):
                    data = 'mnist' if 'MNIST' in line else 'celeba-64'
                m = re.fullmatch(r'Checking (\S+) with (\d+) particles: inpainting\s+(\d+) supr\s+(\d+)', line)
                if m:
                    out[data, int(m[2]), m[1], 'inpainting'], out[data, int(m[2]), m[1], 'supr'] = int(m[3]), int(m[4])
            return out

        base = report()
        ck.require(set(base) == {k for k in per if k[2] != 'csgm'}, 'integrity', f'reports on {sorted(base)}')
        for k, v in base.items():
            ck.require(v == 2, 'integrity', f'{k}: {v} results are counted instead of 2')
        for k, f in per.items():
            p = os.path.join(box.exp, f % 1)
            os.remove(p)
            now = report()
            for q in base:
                ck.require(now[q] == 2 - (q == k), 'integrity', f'without {f % 1}, {now[q]} results of {q} are counted')
            open(p, 'w').close()
            ck.count(states=1, transitions=len(base))


def bridge_images(ck):
    """The bridge of images: training, restoration, figures."""
    with Box() as box:
        es = experiments(ck, box, leaf(ck, box, 'bashes/sb_imgs.sh', []))
        runs = {}
        for path, o in es:
            runs.setdefault(tuple(sorted((n, str(v)) for n, v in o.items() if n != 'y0_id')), []).append(o['y0_id'])
        for k, v in runs.items():
            ck.require(len(v) == len(set(v)), 'once', f'images {v} are restored')
        ck.require(len(runs) == 2 and len({tuple(sorted(v)) for v in runs.values()}) == 1, 'methods', f'{len(runs)} methods')
        fair(ck, es, 'sb_imgs.sh', but=('y0_id',))
        p = box.start('run_sb_train.sh', [])
        finish(box, p)
        (tp, to), = experiments(ck, box, [box.job(i) for i in box.seen('start')])
        made = set()
        for path, o in es:
            y = o['y0_id']
            t = SbTask(o['rate'], o['sde'])
            f0 = t.files
            t.files = lambda f0=f0, o=o: {**f0(), f'checkpoints/sb_mnist_{o["sde"]}_{o["sb_step"]}.npz': dict(param_fwd=FWD, param_bwd=BWD)}
            r = go(t, path, argv_of(o, test_nsteps=K, nsamples=2), stubs=IMG_STUBS + [EM])
            made |= {norm(n) for n in [*saved(r), *r.images]}
            ck.require(o['nsamples'] == 100, 'argument', 'number of samples')
            cp = {norm(n) for n in r.loaded if 'checkpoints' in n}
            want = {f'checkpoints/sb_{to["dataset"]}_{to["sde"]}_{i}.npz' for i in range(to['nsbs'])}
            ck.require(cp <= want, 'checkpoint', f'{path} loads {sorted(cp)}; training saves {sorted(want)[-2:]}')
            ck.require({norm(n) for n in r.loaded if 'checkpoints' not in n} == {'datasets/mnist.npz'}, 'data', f'{path} reads {r.loaded}')
            check_folders(ck, box, made, 'sb_imgs.sh')
            ck.count(states=1, transitions=1)
        make = lambda n: dict(test_img=sample_array(n, 5, 5, 1)) if 'true' in n else sample_array(n, 100, 5, 5, 1)
        got = reads(ck, 'experiments/tabulators/plot_sb_imgs.py', make)
        lost = sorted(n for n in got if n not in made)
        ck.require(not lost, 'closure', f'plot_sb_imgs reads {lost[:3]}, which no driver makes')
        ck.count(states=len(got), transitions=len(got), traces=1)


def run(ck):
    held = [(f'bashes/toy_{m}{v}.sh', [7, 'lin'] + (['0.02'] if m == 'pmcmc' else []) if m != 'csgm' else ['lin'])
            for m in ('filter', 'gibbs', 'pmcmc', 'twisted', 'csgm') for v in ('', '_local')]
    held += [(f'bashes/imgs_{m}{v}.sh', [d] + ([] if m == 'csgm' else [7]) + s) for m in ('filter', 'gibbs', 'pmcmc', 'twisted', 'csgm') for v in ('', '_local')
             for d in ('mnist', 'celeba-64', 'celeba-128') for s in ([], [3]) if ck.thorough or not (s and d == 'mnist')]
    held += [('bashes/sb_imgs.sh', [])]
    for script, args in held:
        for order in orders_of(ck):
            ck.case(f'schedule-{os.path.basename(script)}-{"-".join(map(str, args))}-{order}', parallel, ck, script, args, order)
    for c in ('dardel', 'berzelius', None):
        ck.case(f'toy-{c or "local"}', toy, ck, c)
    ck.case('bridge', bridge, ck)
    ck.case('bridge-images', bridge_images, ck)
    for d in SETTINGS:
        ck.case(f'images-{d}', images, ck, d)
    ck.case('integrity', integrity, ck)
    ck.bound('every driver, for 10 and 100 (MNIST and GP), 2 and 10 (CelebA) particles, both SDEs, every data set; jobs that end in the order in which '
             'they start, and in the reverse order (and from the middle in the thorough tier)')
    ck.assume('names of results are learnt by executing a script for one number of run and image, and hold for the others by substitution; a job that has '
              'not started 30 ms after the last event counts as not started')

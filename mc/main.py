"""Entry point of every check: `./check <property> [--tier quick|thorough] [--only CASE | --replay FILE]`.

The cases of a check are distributed over worker processes; the parent merges their counts and writes the evidence."""
import argparse
import importlib
import json
import os
import subprocess
import sys
import tempfile
import warnings

warnings.filterwarnings('ignore')


def one(a, only, dump):
    from mc import rng  # must come before anything else that imports jax  # noqa: F401
    import jax
    from mc.report import Check
    jax.config.update('jax_enable_x64', True)
    ck = Check(a.prop, a.tier, int(os.environ.get('VERIF_SEED', '1')), only)
    if a.shard:
        ck.shard = tuple(int(x) for x in a.shard.split('/'))
    mod = importlib.import_module('mc.' + a.prop.lower())
    mod.run(ck)
    if dump:
        ck.dump(dump)
        return 0
    return ck.finish()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('--shard')
    ap.add_argument('--dump')
    a = ap.parse_args()
    only = a.only
    if a.replay:
        only = json.load(open(a.replay))['case']
    jobs = int(os.environ.get('MC_JOBS', '6'))
    if only or a.shard or jobs <= 1:
        sys.exit(one(a, only, a.dump))
    from mc.report import Check
    ck = Check(a.prop, a.tier, int(os.environ.get('VERIF_SEED', '1')))
    with tempfile.TemporaryDirectory(prefix='mc-') as tmp:
        def start(i):
            f = os.path.join(tmp, f'{i}.json')
            return i, f, subprocess.Popen([sys.executable, '-m', 'mc.main', a.prop, '--tier', a.tier, '--shard',
                                           f'{i}/{jobs}', '--dump', f], stdout=subprocess.PIPE,
                                          stderr=subprocess.STDOUT, text=True)

        again = []
        for i, f, p in [start(i) for i in range(jobs)]:
            out, _ = p.communicate()
            sys.stdout.write(out)
            if os.path.exists(f):
                ck.absorb(json.load(open(f)))
            else:
                again.append(i)
        for i in again:  # ended from outside (memory): once more, alone
            i, f, p = start(i)
            out, _ = p.communicate()
            sys.stdout.write(out)
            if os.path.exists(f):
                ck.absorb(json.load(open(f)))
            else:
                ck.inconclusive.append((f'shard {i}', f'worker ended with {p.returncode}: {out[-400:]}'))
                ck.crashed = True
    sys.exit(ck.finish())


if __name__ == '__main__':
    main()

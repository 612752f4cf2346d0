"""Running the cases of a check, reporting violations, replays and evidence."""
import json
import os
import re
import sys
import time
import traceback
import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    def __init__(self, sig, msg, **data):
        super().__init__(msg)
        self.sig, self.msg, self.data = sig, msg, data


class Inconclusive(Exception):
    """The case could not be decided (never an alarm); listed in the evidence."""


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    if isinstance(x, str) or x is None:
        return x
    try:
        return jsonable(np.asarray(x).tolist())
    except Exception:
        return repr(x)


def known_findings(prop):
    """[(signature regex, text)] of the listed findings of this property ('fixed:' lines suppress nothing)."""
    res = []
    path = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) sig=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


class Check:
    def __init__(self, prop, tier, seed, only=None):
        self.prop, self.tier, self.seed, self.only = prop, tier, seed, only
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.cases = self.obligations = 0
        self.samples, self.inconclusive, self.detail = [], [], []
        self.violations, self.known = [], []
        self.assumptions = []
        self.bounds = []
        self.known_sigs = known_findings(prop)
        self.current = None
        self.distinct = set()
        self.shard = None
        self.index = -1
        self.crashed = False
        self.budget_s = float(os.environ.get('MC_BUDGET_S', 700 if tier == 'quick' else 6 * 3600))

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # ---- accounting -------------------------------------------------------------------------------------------------
    def count(self, law=None, states=0, transitions=0, traces=0):
        if law is not None:
            self.states += law.stats['states']
            self.transitions += law.stats['executions']
        self.states += int(states)
        self.transitions += int(transitions)
        self.traces += int(traces)

    def sample(self, **kw):
        if len(self.samples) < 12:
            self.samples.append(jsonable(dict(case=self.current, **kw)))

    def bound(self, text):
        if text not in self.bounds:
            self.bounds.append(text)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    # ---- judging ----------------------------------------------------------------------------------------------------
    def require(self, ok, sig, msg, **data):
        """A judged fact. Raises on failure, so that the first counterexample of a case is the one reported."""
        self.obligations += 1
        if not bool(ok):
            raise Violation(sig, msg, **data)

    def close(self, got, want, sig, msg, tol=1e-8, **data):
        got, want = np.asarray(got), np.asarray(want)
        self.obligations += int(max(1, got.size))
        if got.shape != want.shape:
            raise Violation(sig, f'{msg}: shape {got.shape} instead of {want.shape}', **data)
        scale = np.maximum(1., np.abs(want)) if want.dtype.kind in 'fc' else 1
        with np.errstate(invalid='ignore'):
            err = np.abs(got - want) / scale
        same_inf = (got == want)
        err = np.where(same_inf, 0., err)
        bad = ~(err <= tol)
        if bad.any():
            ix = tuple(int(i) for i in np.unravel_index(np.argmax(np.where(np.isnan(err), np.inf, err)), err.shape))
            raise Violation(sig, f'{msg}: at {ix} got {got[ix]!r}, expected {want[ix]!r}', index=ix,
                            got=got[ix], want=want[ix], **data)

    def case(self, name, fn, *args, **kw):
        self.index += 1
        if self.only is not None and name != self.only:
            return
        if self.shard is not None and self.index % self.shard[1] != self.shard[0]:
            return
        self.current = name
        t = time.time()
        if t - self.t0 > self.budget_s:
            self.inconclusive.append((name, 'time budget'))
            return
        self.cases += 1
        before = (self.states, self.transitions)
        try:
            fn(*args, **kw)
        except Violation as v:
            self._report(name, v)
        except Inconclusive as e:
            self.inconclusive.append((name, str(e)))
            print(f'note: {name}: not decided: {e}', flush=True)
        except Exception as e:
            self._exception(name, e)
        self.detail.append(dict(case=name, states=self.states - before[0], transitions=self.transitions - before[1],
                                wall_s=round(time.time() - t, 2)))
        if os.environ.get('MC_VERBOSE'):
            print(f'  {name}: {self.detail[-1]}', flush=True)

    def _exception(self, name, e):
        from mc import rng
        rng.W = None
        if isinstance(e, (rng.Unsupported, rng.BudgetExceeded, rng.NeedUnroll, rng.MergeUnsound)):
            text = f'{type(e).__name__}: {str(e)[:300]}'
            self.inconclusive.append((name, text))
            print(f'note: {name}: not decided: {text}', flush=True)
            return
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if os.path.abspath(f.filename).startswith(os.path.abspath(rng.REPO) + os.sep)]
        text = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        if getattr(e, '_mc_confirmed', None) is False:
            short = f'{type(e).__name__}: {str(e)[:300]}'
            self.inconclusive.append((name, f'explorer-only exception {short}'))
            if os.environ.get('MC_VERBOSE'):
                print(text[-6000:])
            print(f'note: {name}: not decided (explorer-only exception): {short}', flush=True)
            return
        if inrepo:
            self._report(name, Violation('raises', f'the code raises {type(e).__name__} on a valid input: {e}',
                                         where=f'{inrepo[-1].filename}:{inrepo[-1].name}', traceback=text))
        else:
            self._report(name, Violation('raises', f'driving the code failed: {type(e).__name__}: {e}',
                                         traceback=text))

    def _report(self, name, v):
        for pat, text in self.known_sigs:
            if re.fullmatch(pat, f'{name}:{v.sig}'):
                self.known.append(f'{name}:{v.sig}')
                print(f'KNOWN-FINDING: property={self.prop} {text}', flush=True)
                return
        d = os.path.join(ROOT, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f'{self.prop}-{self.index}.json')
        json.dump(dict(property=self.prop, case=name, sig=v.sig, message=v.msg, data=jsonable(v.data),
                       replay=f'./check {self.prop} --tier {self.tier} --only "{name}"'), open(path, 'w'), indent=1)
        self.violations.append((name, v.sig, v.msg))
        print(f'{name}: {v.msg}')
        print(f'VIOLATION property={self.prop} replay={path}', flush=True)

    FIELDS = ('states', 'transitions', 'traces', 'cases', 'obligations')
    LISTS = ('samples', 'inconclusive', 'detail', 'violations', 'known', 'assumptions', 'bounds')

    def dump(self, path):
        with open(path, 'w') as f:
            json.dump(jsonable({k: getattr(self, k) for k in self.FIELDS + self.LISTS}), f)

    def absorb(self, d):
        for k in self.FIELDS:
            setattr(self, k, getattr(self, k) + d[k])
        for k in self.LISTS:
            cur = getattr(self, k)
            cur += [x for x in d[k] if k not in ('assumptions', 'bounds') or x not in cur]

    # ---- end --------------------------------------------------------------------------------------------------------
    def finish(self, level='model_checking'):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   cases=self.cases, facts_checked=self.obligations, samples=self.samples[:12],
                   bounds=self.bounds, not_decided=[list(i) for i in self.inconclusive],
                   per_case=self.detail[:200], exhaustive=not self.inconclusive)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=jsonable(cov),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', f'{self.prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print(f'{self.prop} {self.tier}: {self.cases} cases, {self.states} states, {self.transitions} transitions, '
              f'{self.traces} traces, {len(self.violations)} violations, {len(self.inconclusive)} not decided, '
              f'{ev["wall_s"]} s')
        if self.crashed and not self.violations:
            return 2
        return 1 if self.violations else 0

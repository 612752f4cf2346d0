"""Conditional resampling is the conditional law of an unbiased scheme."""
import itertools
import math
import numpy as np
import jax
import jax.numpy as jnp
from mc import p08, wide
from mc.explore import explore, conformance
from mc.report import Violation
from mc import rng
from fbs.samplers.csmc import resamplings as R


def weight_vectors(N, cmax):
    """All integer compositions in {0..cmax}^N, up to scale, as weight vectors."""
    seen, out = set(), []
    for c in itertools.product(range(cmax + 1), repeat=N):
        if sum(c) == 0:
            continue
        g = math.gcd(*c)
        key = tuple(x // g for x in c)
        if key not in seen:
            seen.add(key)
            out.append(key)
    return out


def law_table(law, nb, N):
    """P(A | init) as an (nb, N^N) table; indices out of range are reported."""
    A = np.asarray(law.leaves[0])
    if not ((A >= 0) & (A < N)).all():
        bad = A[~((A >= 0) & (A < N)).all(axis=1)][0]
        raise Violation('range', f'resampled indices out of range: {bad.tolist()}', indices=bad)
    code = A @ (N ** np.arange(N - 1, -1, -1))
    t = np.zeros((nb, N ** N))
    np.add.at(t, (law.init, code), law.w)
    return t


def judge(ck, scheme, N, cmax, M, budget, dtype=float):
    f = getattr(R, scheme)
    ws = weight_vectors(N, cmax)
    W = np.array([np.array(c) / sum(c) for c in ws])
    paths = np.array(list(itertools.product(range(N), repeat=N)))
    unc = lambda key, w: f(key, w, conditional=False)
    law0 = explore(unc, (W,), uniform=M, budget=budget)
    ck.count(law0)
    U = law_table(law0, len(W), N)
    ck.close(U.sum(1), np.ones(len(W)), 'mass', 'unconditional probabilities add up')
    for a in range(len(W)):
        counts = np.stack([(paths == m).sum(1) for m in range(N)], 1)
        ck.close(U[a] @ counts, N * W[a], 'unbiased', f'expected number of copies, weights {ws[a]}', weights=ws[a])
        zero = [m for m in range(N) if W[a][m] == 0]
        if zero:
            hit = U[a][np.isin(paths, zero).any(1)].sum()
            ck.require(hit == 0, 'zero-weight', f'a zero-weight particle is selected, weights {ws[a]}', weights=ws[a])
        if scheme == 'killing' and len(set(ws[a])) == 1:
            ck.close(U[a][(paths == np.arange(N)).all(1)].sum(), 1., 'uniform-fixed',
                     'killing moves indices under uniform weights')
    # uniformly rotated scheme
    roll = lambda s: np.roll(paths, s, axis=1) @ (N ** np.arange(N - 1, -1, -1))
    Rt = np.zeros_like(U)
    for s in range(N):
        Rt[:, roll(s)] += U / N
    combos = [(a, i, j) for a in range(len(W)) for i in range(N) for j in range(N) if W[a][i] > 0]
    inits = (np.array([W[a] for a, _, _ in combos]), np.array([i for _, i, _ in combos]),
             np.array([j for _, _, j in combos]))
    fn = lambda key, w, i, j: f(key, w, i, j, True)
    law = explore(fn, inits, uniform=M, budget=budget)
    ck.count(law)
    C = law_table(law, len(combos), N)
    for r, (a, i, j) in enumerate(combos):
        on = paths[:, j] == i
        ck.close(C[r][~on].sum(), 0., 'reference-kept',
                 f'the reference ancestor is lost: weights {ws[a]}, i={i}, j={j}', weights=ws[a], i=i, j=j, tol=1e-12)
        ck.close(C[r].sum(), 1., 'mass', 'conditional probabilities add up')
        want = np.where(on, Rt[a], 0.)
        ck.close(want.sum(), W[a][i], 'marginal', 'ancestor marginal of the rotated scheme')
        ck.close(W[a][i] * C[r], want, 'conditional-law',
                 f'not the conditional law of the unconditional scheme given A[{j}]={i}: weights {ws[a]}',
                 weights=ws[a], i=i, j=j)
    ck.sample(scheme=scheme, N=N, weight_vectors=len(ws), conditions=len(combos), example=dict(
        weights=ws[-1], i=combos[-1][1], j=combos[-1][2], law=C[-1][C[-1] > 0], support=paths[C[-1] > 0]))
    try:
        ck.count(traces=conformance(fn, inits, law, 30, len(combos), rows=np.arange(0, len(combos),
                                                                                   max(1, len(combos) // 40))))
    except AssertionError as e:
        raise Violation('conformance', str(e))


def boundary(ck, scheme, N, dtype, conditional):
    """Extreme uniforms, one weight at the edge of the float range: support facts only."""
    f = getattr(R, scheme)
    one = np.nextafter(np.array(1., dtype), np.array(0., dtype))
    upts = np.array([0., float(np.finfo(dtype).eps), 0.5, float(one)])
    ws = []
    for z in itertools.product([0., 1., 3., 7., 1e-3], repeat=N):
        if sum(z) > 0:
            ws.append(np.array(z) / sum(z))
    W = np.array(ws, dtype)
    if not conditional:
        inits = (W,)
        fn = lambda key, w: f(key, w, conditional=False)
    else:
        combos = [(a, i, j) for a in range(len(W)) for i in range(N) for j in range(N) if W[a][i] > 0]
        inits = (np.array([W[a] for a, _, _ in combos]), np.array([i for _, i, _ in combos]),
                 np.array([j for _, _, j in combos]))
        fn = lambda key, w, i, j: f(key, w, i, j, True)
    law = explore(fn, inits, uniform=upts, budget=2e8, x32=dtype == np.float32)
    ck.count(law)
    A = np.asarray(law.leaves[0])
    pos = law.w > 0
    ok = ((A >= 0) & (A < N)).all(1)
    ck.require(ok[pos].all(), 'range', f'index out of range for an extreme uniform: {A[pos & ~ok][:1].tolist()}, '
               f'weights {inits[0][law.init[pos & ~ok][:1]].tolist()}')
    w = inits[0][law.init]
    zero = (np.take_along_axis(w, np.clip(A, 0, N - 1), 1) == 0).any(1) & pos
    ck.require(not zero.any(), 'zero-weight-boundary', 'a zero-weight particle is selected for an extreme uniform: '
               f'weights {w[zero][:1].tolist()} -> {A[zero][:1].tolist()}', weights=w[zero][:1], got=A[zero][:1])
    if conditional:
        i, j = inits[1][law.init], inits[2][law.init]
        ck.require((A[np.arange(len(A)), j] == i)[pos].all(), 'reference-kept', 'the reference ancestor is lost')


def run(ck):
    for scheme in ('killing', 'multinomial'):
        ck.case(f'{scheme}-N1', judge, ck, scheme, 1, 1, 6, 1e7)
        ck.case(f'{scheme}-N2', judge, ck, scheme, 2, 4, 12, 1e8)
        ck.case(f'{scheme}-N3', judge, ck, scheme, 3, 3 if ck.thorough else 2, 6 if ck.thorough else 2, 4e8)
        if scheme == 'multinomial' or ck.thorough:
            ck.case(f'{scheme}-N4', judge, ck, scheme, 4, 2, 2, 4e9)
    ck.case('systematic-unconditional', systematic, ck)
    for dtype in (np.float32, np.float64):
        nm = np.dtype(dtype).name
        for cond in (False, True):
            for scheme in ('killing', 'multinomial'):
                ck.case(f'boundary-{scheme}-{nm}-{cond}', boundary, ck, scheme, 2 if not ck.thorough else 3, dtype,
                        cond)
        ck.case(f'boundary-systematic-{nm}', boundary, ck, 'systematic', 3, dtype, False)
    for N in (5, 8, 17, 29, 33, 300):
        for scheme in ('killing', 'multinomial'):
            ck.case(f'wide-{scheme}-{N}', wide.conditional, ck, getattr(R, scheme), scheme, N)
        ck.case(f'wide-systematic-{N}', wide.many, ck, lambda w, key: R.systematic(key, w, conditional=False), 'systematic', N, N < 100)
    ck.bound('up to 300 particles: what holds for every draw')
    p08.keys(ck, 'cond-resampling-')
    ck.bound('every weight vector with integer ratios up to 4 (N=2), 3 (N=3), 2 (N=4, thorough); every (i, j)')


def systematic(ck):
    for N, cmax in ((1, 1), (2, 5), (3, 4), (4, 2)):
        ws = weight_vectors(N, cmax)
        for S in sorted({sum(c) for c in ws}):
            grp = [c for c in ws if sum(c) == S]
            W = np.array([np.array(c) / S for c in grp])
            law = explore(lambda key, w: R.systematic(key, w, conditional=False), (W,), uniform=2 * S)
            ck.count(law)
            paths = np.array(list(itertools.product(range(N), repeat=N)))
            U = law_table(law, len(W), N)
            for a in range(len(W)):
                counts = np.stack([(paths == m).sum(1) for m in range(N)], 1)
                ck.close(U[a] @ counts, N * W[a], 'unbiased', f'expected number of copies, weights {grp[a]}')
                sup = counts[U[a] > 0]
                ck.require((np.abs(sup - N * W[a]) < 1).all(), 'systematic-counts',
                           f'systematic copies differ from N w by one or more: weights {grp[a]}')

"""Forced-move selection: exact invariance and exact acceptance probability."""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from mc.explore import explore, conformance
from mc.report import Violation
from mc import p08
from mc.p02 import weight_vectors
from fbs.samplers.gibbs import force_move


def judge(ck, N, cmax, dtype, tol):
    ws = weight_vectors(N, cmax)
    groups = {}
    for c in ws:
        groups.setdefault(sum(c), []).append(c)
    law_of(ck, N, [(S, int(np.lcm.reduce(np.arange(1, S + 1))), grp) for S, grp in sorted(groups.items())], dtype, tol)


def dominant(ck, N, dtype, tol):
    """One particle with almost all the weight, up to beyond every threshold of the order exp(-N)."""
    jobs = []
    for big in (8, 15, 30, 60, 100 * N):
        for rest in itertools.product((0, 1, 2), repeat=N - 1):
            if sum(rest):
                for k in range(N):
                    c = rest[:k] + (big,) + rest[k:]
                    S = sum(c)
                    jobs.append((S, int(np.lcm.reduce([S - x for x in c] + [S - big])), [c]))
    law_of(ck, N, [j for j in jobs if j[1] < 2500], dtype, tol)


def extreme(ck, N):
    """One particle with all but 1e-2 ... 1e-10 of the weight: the uniform draw takes one value in every interval between the ratios
    (1 - w_k) / (1 - w_i) and a geometric grid, with the length of the interval as its probability."""
    for d in (1e-2, 1e-3, 1e-4, 1e-6, 1e-8, 1e-10):
        for rest in itertools.product((0, 1, 2), repeat=N - 1):
            if not sum(rest):
                continue
            for at in range(N):
                w = np.array([d * x / sum(rest) for x in rest[:at]] + [0.] + [d * x / sum(rest) for x in rest[at:]])
                w[at] = 1 - w.sum()
                ratio = [(1 - a) / (1 - b) for a in w for b in w if b < 1]
                rests = [np.where(np.arange(N) == k, 0., w) for k in range(N)]
                cuts = np.concatenate([ratio, np.cumsum(w), np.cumsum(w[::-1])] + [np.cumsum(r / r.sum()) for r in rests])
                edges = np.unique(np.concatenate([[0., 1.], [r for r in cuts if 0 < r < 1], 2. ** -np.arange(1, 45)]))
                pts = ((edges[1:] + edges[:-1]) / 2, np.diff(edges))
                law = explore(lambda key, w_, k: force_move(key, w_, k), (np.repeat(w[None], N, 0), np.arange(N)), uniform=pts, budget=2e8)
                ck.count(law)
                idx, alpha = law.out
                pos = law.w > 0
                T = np.zeros((N, N))
                np.add.at(T, (law.init, np.clip(idx, 0, N - 1)), law.w)
                ck.close((w @ T)[w < .5] / d, w[w < .5] / d, 'invariance', f'weights {w.tolist()} are not invariant', tol=1e-4, weights=w, kernel=T)
                for k in range(N):
                    if w[k] > 0:
                        move = 1 - T[k][k] if k != at else np.delete(T[k], k).sum()
                        ck.close(alpha[(law.init == k) & pos] / move, np.ones(int(((law.init == k) & pos).sum())), 'alpha',
                                 f'the reported acceptance probability is not the probability of moving, weights {w.tolist()}, k={k}', tol=1e-4)


def law_of(ck, N, jobs, dtype, tol):
    merged = {}
    for S, M, grp in jobs:
        merged.setdefault((S, M), []).extend(grp)
    for (S, M), grp in sorted(merged.items()):
        combos = [(a, k) for a in range(len(grp)) for k in range(N)]
        W = np.array([np.array(grp[a]) / S for a, _ in combos], dtype)
        ks = np.array([k for _, k in combos])
        law = explore(lambda key, w, k: force_move(key, w, k), (W, ks), uniform=M, budget=2e8, x32=dtype == np.float32)
        ck.count(law)
        idx, alpha = law.out
        nb = len(combos)
        pos = law.w > 0
        ck.require(((idx >= 0) & (idx < N))[pos].all(), 'range', 'index out of range')
        T = np.zeros((nb, N))
        np.add.at(T, (law.init, np.clip(idx, 0, N - 1)), law.w)
        ck.close(T.sum(1), np.ones(nb), 'mass', 'probabilities add up', tol=tol)
        for a, c in enumerate(grp):
            w = np.array(c) / S
            K = T[[combos.index((a, k)) for k in range(N)]]
            ck.close(w @ K, w, 'invariance', f'weights {c} are not invariant', tol=tol, weights=c, kernel=K)
            for k in range(N):
                r = combos.index((a, k))
                al = alpha[(law.init == r) & pos]
                if w[k] > 0:  # the reference particle always has a positive weight
                    z = [m for m in range(N) if w[m] == 0]
                    ck.require(K[k][z].sum() <= (0 if w[k] < 1 else 1e-10), 'zero-weight',
                               f'a zero-weight particle is selected, weights {c}, k={k}')
                    ck.close(al, np.full(al.shape, 1 - K[k][k]), 'alpha',
                             f'the reported acceptance probability is not the probability of moving, weights {c}, k={k}',
                             tol=max(tol, 1e-9), weights=c, k=k, kernel=K)
                    # strictly better than resampling from the weights (Peskun): off-diagonal at least w_i
                    for m in range(N):
                        if m != k:
                            ck.require(K[k][m] >= w[m] - 10 * tol, 'peskun', f'moves less than a plain draw, weights {c}')
    ck.sample(N=N, weights=grp[-1], kernel=K, dtype=str(np.dtype(dtype)))
    try:
        if dtype == np.float64:
            ck.count(traces=conformance(lambda key, w, k: force_move(key, w, k), (W, ks), law, 20, nb))
    except AssertionError as e:
        raise Violation('conformance', str(e))


def near_one(ck, dtype):
    """Nearly degenerate weights: nothing becomes NaN, nothing of zero weight is selected with real probability."""
    out = []
    eps = float(np.finfo(dtype).eps)
    for N in (2, 3, 4):
        for d in (0., eps, 4 * eps, 1e-12, 1e-9, 1e-6):
            for k in range(N):
                for m in range(N):
                    w = np.zeros(N)
                    w[k] = 1 - d
                    w[m] += d
                    out.append((N, w, k))
    for N in (2, 3, 4):
        sel = [(w, k) for n, w, k in out if n == N]
        combos = [(w, kk) for w, k in sel for kk in range(N)]
        W = np.array([w for w, _ in combos], dtype)
        ks = np.array([k for _, k in combos])
        law = explore(lambda key, w, k: force_move(key, w, k), (W, ks), uniform=64, budget=2e8, x32=dtype == np.float32)
        ck.count(law)
        idx, alpha = law.out
        ck.require(np.isfinite(law.w).all(), 'nan', 'invalid selection probabilities for nearly degenerate weights')
        ck.require(np.isfinite(alpha).all() and (alpha >= 0).all() and (alpha <= 1).all(), 'alpha-range',
                   'acceptance probability outside [0, 1]')
        T = np.zeros((len(combos), N))
        np.add.at(T, (law.init, np.clip(idx, 0, N - 1)), law.w)
        ck.close(T.sum(1), np.ones(len(combos)), 'mass', 'probabilities add up', tol=1e-5)
        for r, (w, k) in enumerate(combos):
            if W[r][k] > 0.5:
                z = [m for m in range(N) if W[r][m] == 0]
                ck.require(T[r][z].sum() == 0., 'zero-weight', f'a zero-weight particle is selected, weights {w}, k={k}')


def run(ck):
    for N, cmax in ((1, 1), (2, 5), (3, 3), (4, 2)):
        ck.case(f'N{N}-float64', judge, ck, N, cmax, np.float64, 1e-9)
        ck.case(f'N{N}-float32', judge, ck, N, cmax if N < 3 else cmax - 1, np.float32, 3e-6)
    for dtype, tol in ((np.float64, 1e-9), (np.float32, 3e-6)):
        ck.case(f'dominant-N2-{np.dtype(dtype)}', dominant, ck, 2, dtype, tol)
        ck.case(f'dominant-N3-{np.dtype(dtype)}', dominant, ck, 3, dtype, tol)
    ck.case('extreme-N2', extreme, ck, 2)
    ck.case('extreme-N3', extreme, ck, 3)
    p08.keys(ck, 'force-move')
    if ck.thorough:
        ck.case('N3-c4', judge, ck, 3, 4, np.float64, 1e-9)
        ck.case('N5-float64', judge, ck, 5, 1, np.float64, 1e-9)
        ck.case('N4-c3', judge, ck, 4, 3, np.float64, 1e-9)
    ck.case('near-one-float64', near_one, ck, np.float64)
    ck.case('near-one-float32', near_one, ck, np.float32)
    ck.bound('all weight vectors with small integer ratios, 1 to 4 particles, every reference index, float32 and float64; dominant weights up to 100 N : 1')

"""Unconditional resampling schemes of the particle filters: exact laws and boundary behaviour."""
import itertools
import math
import numpy as np
import jax.numpy as jnp
from mc import p08, wide
from mc.explore import explore, conformance
from mc.report import Violation
from mc.p02 import weight_vectors, law_table
from fbs.samplers import resampling as R


def judge(ck, scheme, N, cmax, fine, dtype=np.float64):
    f = getattr(R, scheme)
    ws = weight_vectors(N, cmax)
    paths = np.array(list(itertools.product(range(N), repeat=N)))
    counts = np.stack([(paths == m).sum(1) for m in range(N)], 1)
    groups = {}
    for c in ws:
        groups.setdefault(max(c) if scheme == 'killing' else sum(c), []).append(c)
    for S, grp in sorted(groups.items()):
        W = np.array([np.array(c) / sum(c) for c in grp])
        M = S * fine
        law = explore(lambda key, w: f(w, key), (W,), uniform=M, budget=3e8)
        ck.count(law)
        U = law_table(law, len(W), N)
        ck.close(U.sum(1), np.ones(len(W)), 'mass', 'probabilities add up')
        for a in range(len(W)):
            ck.close(U[a] @ counts, N * W[a], 'unbiased', f'expected number of copies, weights {grp[a]}',
                     weights=grp[a], law=U[a])
            on = U[a] > 0
            zero = [m for m in range(N) if W[a][m] == 0]
            if zero:
                ck.require(U[a][np.isin(paths, zero).any(1)].sum() == 0, 'zero-weight',
                           f'a zero-weight particle is selected, weights {grp[a]}')
            if scheme in ('systematic', 'stratified'):
                ck.require((np.diff(paths[on], axis=1) >= 0).all(), 'order', 'indices are not sorted')
                # sequential counts: the first m particles get floor/ceil (systematic) or within one (stratified)
                cum = np.cumsum(counts[on], 1) - np.cumsum(N * W[a])[None]
                ck.require((np.abs(cum) < 1 + 1e-9).all(), 'cumulative-counts',
                           f'cumulative copies differ from N W by more than one, weights {grp[a]}')
            if scheme == 'systematic':
                ck.require((np.abs(counts[on] - N * W[a]) < 1).all(), 'systematic-counts',
                           f'copies differ from N w by one or more, weights {grp[a]}')
            if scheme == 'stratified':
                # the draws of the strata are independent: exact product law
                marg = [np.array([U[a][paths[:, q] == m].sum() for m in range(N)]) for q in range(N)]
                prod = np.prod([marg[q][paths[:, q]] for q in range(N)], axis=0)
                ck.close(U[a], prod, 'independent-strata', f'strata are not independent, weights {grp[a]}')
            if scheme == 'killing' and len(set(grp[a])) == 1:
                ck.close(U[a][(paths == np.arange(N)).all(1)].sum(), 1., 'uniform-fixed',
                         'killing moves indices under uniform weights')
            if scheme == 'killing':
                # exact law: survive with probability w/wmax, otherwise an independent categorical draw
                wa = W[a]
                q = wa[None, :] * (1 - wa / wa.max())[:, None] + np.diag(wa / wa.max())
                ck.close(U[a], np.prod([q[m][paths[:, m]] for m in range(N)], axis=0), 'killing-law',
                         f'not the killing law, weights {grp[a]}')
        if S == max(groups):
            ck.sample(scheme=scheme, N=N, weights=grp[-1], law=U[-1][U[-1] > 0], support=paths[U[-1] > 0])
        try:
            if scheme != 'killing':
                ck.count(traces=conformance(lambda key, w: f(w, key), (W,), law, 30, len(W)))
        except AssertionError as e:
            raise Violation('conformance', str(e))


def multinomial(ck, N, cmax, M):
    """Sorted-uniform construction: a grid approximation of a continuous construction, so a tolerance."""
    ws = weight_vectors(N, cmax)
    W = np.array([np.array(c) / sum(c) for c in ws])
    law = explore(lambda key, w: R.multinomial(w, key), (W,), uniform=M, budget=4e8)
    ck.count(law)
    paths = np.array(list(itertools.product(range(N), repeat=N)))
    counts = np.stack([(paths == m).sum(1) for m in range(N)], 1)
    U = law_table(law, len(W), N)
    ck.close(U.sum(1), np.ones(len(W)), 'mass', 'probabilities add up')
    for a in range(len(W)):
        got = {}
        want = {}
        for p, q, c in zip(U[a], paths, counts):
            got[tuple(c)] = got.get(tuple(c), 0.) + p
            want[tuple(c)] = want.get(tuple(c), 0.) + np.prod(W[a][q])
        ks = sorted(want)
        ck.close([got.get(k, 0.) for k in ks], [want[k] for k in ks], 'multinomial-law',
                 f'law of the copies is not multinomial, weights {ws[a]}', tol=0.04, weights=ws[a])
        zero = [m for m in range(N) if W[a][m] == 0]
        if zero:
            ck.require(U[a][np.isin(paths, zero).any(1)].sum() == 0, 'zero-weight',
                       f'a zero-weight particle is selected, weights {ws[a]}')


def boundary(ck, scheme, N, dtype):
    f = getattr(R, scheme)
    one = np.nextafter(np.array(1., dtype), np.array(0., dtype))
    eps = float(np.finfo(dtype).eps)
    upts = np.array([0., eps / 2, 0.3, 0.5, float(one)])
    ws = []
    for z in itertools.product([0., 1., 3., 7., 1e-4], repeat=N):
        if sum(z) > 0:
            w = np.array(z, dtype)
            ws.append(w / w.sum())
            ws.append(np.exp(np.log(np.maximum(w, 1e-300).astype(float)) - np.log(w.astype(float).sum())).astype(dtype)
                      * (w > 0))
    W = np.array(ws, dtype)
    law = explore(lambda key, w: f(w, key), (W,), uniform=upts, budget=3e8, x32=dtype == np.float32)
    ck.count(law)
    A = np.asarray(law.leaves[0])
    pos = law.w > 0
    ok = ((A >= 0) & (A < N)).all(1)
    ck.require(ok[pos].all(), 'range', f'index out of range for an extreme uniform: {A[pos & ~ok][:1].tolist()}, '
               f'weights {W[law.init[pos & ~ok][:1]].tolist()}')
    w = W[law.init]
    zero = (np.take_along_axis(w, np.clip(A, 0, N - 1), 1) == 0).any(1) & pos
    ck.require(not zero.any(), 'zero-weight-boundary', 'a zero-weight particle is selected for an extreme uniform: '
               f'weights {w[zero][:1].tolist()} -> {A[zero][:1].tolist()}', weights=w[zero][:1], got=A[zero][:1])
    ck.sample(scheme=scheme, dtype=str(np.dtype(dtype)), weight_vectors=len(W), outcomes=len(law.w))


def run(ck):
    for scheme in ('systematic', 'stratified', 'killing'):
        ck.case(f'{scheme}-N1', judge, ck, scheme, 1, 1, 4)
        ck.case(f'{scheme}-N2', judge, ck, scheme, 2, 6, 2)
        ck.case(f'{scheme}-N3', judge, ck, scheme, 3, 4 if scheme != 'killing' else 3, 2 if scheme == 'systematic' else 1)
        if scheme == 'systematic' or ck.thorough:
            ck.case(f'{scheme}-N4', judge, ck, scheme, 4, 3 if scheme == 'systematic' else 2, 1)
        if scheme == 'systematic':
            ck.case(f'{scheme}-N5', judge, ck, scheme, 5, 2, 1)
    ck.case('multinomial-N1', multinomial, ck, 1, 1, 20)
    ck.case('multinomial-N2', multinomial, ck, 2, 4, 60 if not ck.thorough else 120)
    if ck.thorough:
        ck.case('multinomial-N3', multinomial, ck, 3, 2, 40)
    for dtype in (np.float32, np.float64):
        for scheme in ('systematic', 'stratified', 'killing', 'multinomial'):
            for N in ((2, 3) if not ck.thorough else (2, 3, 4)):
                ck.case(f'boundary-{scheme}-N{N}-{np.dtype(dtype).name}', boundary, ck, scheme, N, dtype)
    for N in (5, 8, 17, 29, 33, 100) + ((257, 1000) if ck.thorough else ()):
        for scheme in ('systematic', 'stratified', 'killing', 'multinomial'):
            ck.case(f'wide-{scheme}-{N}', wide.many, ck, getattr(R, scheme), scheme, N)
            if N == 100:
                ck.case(f'wide-{scheme}-300', wide.many, ck, getattr(R, scheme), scheme, 300, False)
    ck.bound('up to 100 (thorough: 1000) particles: what holds for every draw, every cell of the draw of systematic resampling and of every stratum')
    p08.keys(ck, 'resampling-')
    ck.bound('every weight vector with integer ratios up to 6 (N=2), 4 (N=3), 3 (N=4), 2 (N=5)')
    ck.assume('the multinomial scheme builds sorted uniforms by a continuous transformation: its law is compared on a '
              'fine grid with tolerance 0.04, its support exactly')

"""Independent formulas of the linear SDEs, written from their documentation: dX = a(t) X dt + b(t) dW."""
import numpy as np
from fbs.sdes.linear import StationaryConstLinearSDE, StationaryLinLinearSDE, StationaryExpLinearSDE, make_ou_sde, make_linear_sde

_x, _w = np.polynomial.legendre.leggauss(24)


def quad(f, s, t, pieces=6):
    e = np.linspace(s, t, pieces + 1)
    tot = 0.
    for a, b in zip(e[:-1], e[1:]):
        tot = tot + 0.5 * (b - a) * sum(w * f(0.5 * (b - a) * x + 0.5 * (a + b)) for x, w in zip(_x, _w))
    return tot


class Ref:
    def __init__(self, kind, *p):
        self.kind, self.p = kind, p
        if kind == 'ou':
            self.a, self.b2 = (lambda t: p[0]), (lambda t: p[1] ** 2)
        elif kind == 'const':
            self.a, self.b2 = (lambda t: p[0]), (lambda t: p[1] ** 2)
        elif kind == 'lin':
            lo, hi, t0, T = p
            beta = lambda t: lo + (hi - lo) * (t - t0) / (T - t0)
            self.a, self.b2 = (lambda t: -0.5 * beta(t)), beta
        elif kind == 'exp':
            a, b, c, z = p
            self.a, self.b2 = (lambda t: a * np.exp(c * (t - z))), (lambda t: b ** 2 * np.exp(c * (t - z)))

    def sde(self):
        return dict(const=StationaryConstLinearSDE, lin=StationaryLinLinearSDE, exp=StationaryExpLinearSDE)[self.kind](
            *self.p)

    def F(self, t, s):
        return float(np.exp(quad(self.a, s, t)))

    def Q(self, t, s):
        return float(quad(lambda r: self.F(t, r) ** 2 * self.b2(r), s, t)) if t != s else 0.

    def path_law(self, x0, ts):
        """Mean (K + 1, d) and covariance ((K + 1), (K + 1)) per component of the path started at x0."""
        n = len(ts)
        m = np.array([self.F(t, ts[0]) for t in ts])
        v = np.array([self.Q(t, ts[0]) for t in ts])
        C = np.zeros((n, n))
        for i in range(n):
            for j in range(n):
                a, b = min(i, j), max(i, j)
                C[i, j] = v[a] * self.F(ts[b], ts[a])
        return m, C

    def name(self):
        return self.kind + '(' + ','.join(f'{x:g}' for x in self.p) + ')'


REFS = [Ref('const', -0.5, 1.), Ref('const', -1.3, 0.7), Ref('const', 0.4, 1.2),
        Ref('lin', 0.02, 4., 0., 2.), Ref('lin', 0.3, 1.7, 0.25, 2.5), Ref('lin', 2., 0.5, -0.5, 1.5),
        Ref('exp', -0.5, 1., 2., 0.), Ref('exp', -0.8, 1.1, -0.6, 0.7)]
OUS = [Ref('ou', -0.5, 1.), Ref('ou', -1.3, 0.7), Ref('ou', 0.4, 1.2)]

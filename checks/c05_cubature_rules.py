"""C05: the 2-D cubature rules are exact to their stated degree, with the stated number of nodes, wherever mapped."""
import re
from math import gamma

import numpy as np

RULE = ('every rule of the table and every rule function against the exact integrals of every monomial up to its '
        'degree, and of random polynomials, under random maps to rectangles and to normal weights; non-trivial: a '
        'polynomial of the full degree was integrated')
ASSUMPTIONS = ['integrands return finite floats or arrays']


def minimums(tier):
    return {'rules': 11, 'monomials': 800, 'mapped polynomials': 600, 'nodes observed': 20000, 'integrators side by side': 300}


def plane_moment(m, n):
    """integral of x^m y^n exp(-x^2-y^2) over the plane"""
    return 0. if m % 2 or n % 2 else gamma((m + 1) / 2.) * gamma((n + 1) / 2.)


def interval_moment(m, a, b):
    return (b ** (m + 1) - a ** (m + 1)) / (m + 1.)


def normal_moment(m, mu, s):
    """E x^m for a normal variate"""
    e = [1., mu]
    for k in range(2, m + 1):
        e.append(mu * e[-1] + (k - 1) * s * s * e[-2])
    return e[m]


class Counted:
    """An integrand that records where it is evaluated"""

    def __init__(self, f):
        self.f, self.nodes = f, []

    def __call__(self, x, y):
        self.nodes.append((float(x), float(y)))
        return self.f(x, y)


def random_poly(rng, degree):
    terms = [(m, d - m) for d in range(degree + 1) for m in range(d + 1)]
    keep = [t for t in terms if rng.random() < .6 or sum(t) == degree]
    co = rng.normal(size=len(keep))

    def f(x, y):
        return sum(c * x ** m * y ** n for c, (m, n) in zip(co, keep))

    def mag(x, y):
        return sum(abs(c * x ** m * y ** n) for c, (m, n) in zip(co, keep))
    return f, mag, list(zip(co, keep))


def run(mon):
    from inference.integrate import cub2d
    from inference.integrate.cub2d import (rule_dict, NormWtCub2D, rect3d4pt, rect7d12pt, square1d4pt, square3d4pt,
                                           square7d12pt)
    names = sorted(rule_dict)
    pristine = {k: (rule_dict[k][1].copy(), rule_dict[k][2].copy()) for k in names}

    def untouched(what):
        for k in names:
            mon.check(np.array_equal(rule_dict[k][1], pristine[k][0]) and np.array_equal(rule_dict[k][2], pristine[k][1]),
                      what, rule=k)

    def spec(name):
        return [int(v) for v in re.match(r'^e2_?r2_(\d+)_(\d+)[a-z]?$', name).groups()]

    for i, rng in mon.cases('table', len(names), len(names)):
        name = names[i]
        with mon.case('table', i, rule=name):
            degree, npts = spec(name)
            fn, absc, wts = rule_dict[name]
            mon.check(absc.shape == (npts, 2) and wts.shape == (npts,), 'the table has the stated number of points')
            mon.check(len({tuple(a) for a in absc.tolist()}) == npts, 'the points are distinct')
            for m in range(degree + 1):
                for n in range(degree + 1 - m):
                    t = wts * absc[:, 0] ** m * absc[:, 1] ** n
                    want, tol = plane_moment(m, n), 2e-12 * max(np.abs(t).sum(), 1e-3)
                    mon.close(t.sum(), want, 'the table integrates a monomial exactly', rtol=0, atol=tol, m=m, n=n)
                    g = Counted(lambda x, y: x ** m * y ** n)
                    mon.close(fn(g), want, 'the rule function integrates a monomial exactly', rtol=0, atol=tol, m=m, n=n)
                    mon.check(len(g.nodes) == npts, 'the integrand is called once per point', calls=len(g.nodes))
                    nw = NormWtCub2D([0., 0.], [np.sqrt(.5)] * 2, name)
                    mon.close(nw(lambda x, y: x ** m * y ** n), want / np.pi, 'the normal weight version is exact',
                              rtol=0, atol=tol)
                    mon.count('monomials')
                    mon.count('nodes observed', npts)
            untouched('the tables are not modified')
            mon.seen('rules', name)
            mon.hit(name)
            mon.sample(rule=name, degree=degree, points=npts)

    for i, rng in mon.cases('normal', 400, 40000):
        name = names[i % len(names)] if rng.random() < .9 else None
        loc = (rng.normal(size=2) * 10 ** rng.uniform(-1, 1.)).tolist()
        sc = (10 ** rng.uniform(-1, 1., 2)).tolist()
        if rng.random() < .15:
            loc, sc = rng.integers(-5, 6, 2).tolist(), rng.integers(1, 5, 2).tolist()
        elif rng.random() < .1:
            sc[int(rng.integers(2))] *= 10. ** rng.integers(-6, 3)
        loc, sc = [(list(v), tuple(v), np.array(v))[int(rng.integers(3))] for v in (loc, sc)]
        with mon.case('normal', i, rule=name, location=loc, scale=sc):
            nw = NormWtCub2D(loc, sc, name) if name else NormWtCub2D(loc, sc)
            degree, npts = spec(name or 'e2r2_7_12')
            f, mag, terms = random_poly(rng, int(rng.integers(1, degree + 1)) if rng.random() < .5 else degree)
            g = Counted(f)
            want = sum(c * normal_moment(m, loc[0], sc[0]) * normal_moment(n, loc[1], sc[1]) for c, (m, n) in terms)
            mon.close(nw(g), want, 'expectation of a polynomial under a normal distribution', rtol=0,
                      atol=1e-11 * nw(mag), terms=terms)
            mon.check(len(g.nodes) == npts and len(set(g.nodes)) == npts, 'the integrand is called once per point')
            mon.count('nodes observed', npts)
            # array-valued integrands
            a, b = rng.normal(size=2)
            got = np.asarray(nw(lambda x, y: np.array([1., a * x, b * y, a * x + b * y])))
            mon.close(got, [1., a * loc[0], b * loc[1], a * loc[0] + b * loc[1]], 'a vector of integrands',
                      rtol=0, atol=1e-10 * (1 + np.abs(a * loc[0]) + np.abs(b * loc[1]) + np.sum(sc)))
            mon.count('mapped polynomials')
            mon.hit('n', name, tuple(loc), tuple(sc))
            # the nodes and weights offered for reuse
            mon.close(sum(w * f(*x) for x, w in zip(nw.absc, nw.wts)), want, 'the nodes and weights of an integrator',
                      rtol=0, atol=1e-11 * nw(mag))
            mon.close(nw.wts.sum(), 1., 'the weights of an integrator sum to one', rtol=1e-11)
            # other integrators, and changes to what was given, do not matter
            first = nw(f)
            nm2 = names[int(rng.integers(len(names)))] if rng.random() < .5 else name or 'e2r2_7_12'
            l2, s2 = rng.normal(size=2), 10 ** rng.uniform(-1, 1., 2)
            other = NormWtCub2D(l2, s2, nm2)
            other(lambda x, y: x * y)
            twin = NormWtCub2D(loc, sc, name) if name else NormWtCub2D(loc, sc)
            if isinstance(loc, (list, np.ndarray)):
                loc[0] += 1.
            if isinstance(sc, (list, np.ndarray)):
                sc[1] *= 2.
            mon.check(nw(f) == first == twin(f), 'an integrator does not depend on others or on later changes',
                      first=first)
            mon.close(other(lambda x, y: np.array([x, y, x * x, y * y]))[:2 + 2 * (spec(nm2)[0] > 1)],
                      np.concatenate([l2, s2 ** 2 + l2 ** 2]), 'another integrator has its own mean and scale',
                      rtol=1e-9, atol=1e-9)
            twin.absc[:] = 0.
            twin.wts[:] = 0.
            mon.check(nw(f) == first, 'changing the nodes of one integrator leaves others alone')
            mon.count('integrators side by side')
            for bad in ([0.], [0., 0., 0.]):
                mon.raises(ValueError, lambda: NormWtCub2D(bad, sc, name or names[0]), 'a location of the wrong length')
                mon.raises(ValueError, lambda: NormWtCub2D(loc, bad, name or names[0]), 'a scale of the wrong length')
            untouched('integrators do not modify the tables')

    for i, rng in mon.cases('rectangle', 400, 40000):
        which = int(rng.integers(5))
        fn, degree, npts = [(rect3d4pt, 3, 4), (rect7d12pt, 7, 12), (square1d4pt, 1, 4), (square3d4pt, 3, 4),
                            (square7d12pt, 7, 12)][which]
        if which < 2:
            xl, yl = (rng.normal(size=2) * 10 ** rng.uniform(-1, 1.)).tolist()
            xu, yu = xl + 10 ** rng.uniform(-2, 2), yl + 10 ** rng.uniform(-2, 2)
            kind = rng.random()
            if kind < .15:
                xl, yl = rng.integers(-9, 9, 2).tolist()
                xu, yu = xl + int(rng.integers(1, 20)), yl + int(rng.integers(1, 20))
            elif kind < .3:
                k = 10. ** rng.integers(-8, 6, 2)
                xl, xu, yl, yu = xl * k[0], xu * k[0], yl * k[1], yu * k[1]
            elif kind < .4:
                xl, xu = -abs(xu), abs(xu)
        else:
            xl, xu, yl, yu = -1., 1., -1., 1.
        with mon.case('rectangle', i, rule=fn.__name__, x=[xl, xu], y=[yl, yu]):
            seq = [tuple, list, np.array][int(rng.integers(3))]
            call = (lambda h: fn(h, seq((xl, xu)), seq((yl, yu)))) if which < 2 else fn
            f, mag, terms = random_poly(rng, degree)
            g = Counted(f)
            want = sum(c * interval_moment(m, xl, xu) * interval_moment(n, yl, yu) for c, (m, n) in terms)
            scale = max(mag(x, y) for x in (xl, xu) for y in (yl, yu)) * (xu - xl) * (yu - yl)
            mon.close(call(g), want, 'integral of a polynomial over a rectangle', rtol=0, atol=1e-11 * scale)
            mon.check(len(g.nodes) == npts and len(set(g.nodes)) == npts, 'the integrand is called once per point')
            strict = which != 2
            for x, y in g.nodes:
                mon.check((xl < x < xu and yl < y < yu) if strict else (xl <= x <= xu and yl <= y <= yu),
                          'the nodes lie in the rectangle', node=(x, y))
            mon.count('nodes observed', npts)
            mon.count('mapped polynomials')
            if which < 2:
                mon.close(fn(f, (xu, xl), (yl, yu)), -want, 'a reversed range changes the sign', rtol=0, atol=1e-11 * scale)
            mon.close(call(lambda x, y: np.array([1., x, y])), (xu - xl) * (yu - yl) * np.array([1., .5 * (xl + xu), .5 * (yl + yu)]),
                      'a vector of integrands over a rectangle', rtol=0,
                      atol=1e-11 * (xu - xl) * (yu - yl) * (1 + max(abs(xl), abs(xu), abs(yl), abs(yu))))
            for m in range(degree + 1):
                for n in range(degree + 1 - m):
                    xm, ym, hx, hy = .5 * (xl + xu), .5 * (yl + yu), .5 * (xu - xl), .5 * (yu - yl)
                    want = hx * hy * interval_moment(m, -1., 1.) * interval_moment(n, -1., 1.)
                    mon.close(call(lambda x, y: ((x - xm) / hx) ** m * ((y - ym) / hy) ** n), want,
                              'a centred monomial', rtol=0, atol=1e-11 * hx * hy * (1 + (abs(xm) / hx) * m + (abs(ym) / hy) * n),
                              m=m, n=n)
                    mon.count('monomials')
            mon.hit('r', which, xl, xu, yl, yu)

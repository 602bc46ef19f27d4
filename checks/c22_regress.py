"""C22: lines fitted to points: estimates from their definitions, errors from the infinitesimal jackknife."""
import math

import numpy as np

RULE = ('random points about a line (any slope, offset, scale, scatter and number), with and without errors in one or both coordinates, as '
        'arrays, lists, integers and views; non-trivial: errors in both coordinates that differ from point to point')
ASSUMPTIONS = ['points whose covariance is not lost in rounding', 'for fits with errors in both coordinates: variances and covariance left after the '
               'errors are subtracted are a twentieth of the whole at least',
               'the extension is compiled here, since no package builds it']
MODES = ['plain', 'poison', 'bounds', 'asan']
LEGACY = [('sandbox/regress', '_regress', ['_regress.pyf', '_regress.f'])]


def minimums(tier):
    return {'two points': 200, 'six lines': 500, 'both errors': 300, 'scatter': 400, 'statistics': 400, 'refusals': 1000, 'no scatter left': 30}


def jackknife(x, y, ex=None, ey=None, cxy=None, six=True):
    """Slopes and intercepts, and their standard errors by the infinitesimal jackknife: the estimates are functions of weights of the
    points, all one, and the variance is the sum of the squares of the derivatives by the weights (taken by a complex step)"""
    n = len(x)
    mx, my = x.mean(), y.mean()
    u, v = x - mx, y - my
    h = 1e-30
    W = np.ones((n + 1, n), complex)
    W[1:] += 1j * h * np.eye(n)
    tot = W.sum(axis=1)
    ux, vy = W @ u / tot, W @ v / tot
    sxx, syy, sxy = W @ (u * u) / tot - ux ** 2, W @ (v * v) / tot - vy ** 2, W @ (u * v) / tot - ux * vy
    if ex is not None:
        sxx, syy, sxy = sxx - W @ ex ** 2 / tot, syy - W @ ey ** 2 / tot, sxy - W @ cxy / tot
    sign = np.where(sxy.real < 0, -1., 1.)
    b1, b2 = sxy / sxx, syy / sxy
    # the angle halfway; the principal axis; geometric and arithmetic mean
    th = (np.arctan(b1) + np.arctan(b2)) / 2
    bis = np.tan(th)
    d = (syy - sxx) / (2 * sxy)
    orth = d + sign * np.sqrt(1 + d * d)
    b = [b1, b2, bis, orth]
    if six:
        b += [sign * np.sqrt(syy / sxx), (b1 + b2) / 2]
    out = []
    for s in b:
        a = (vy + my) - s * (ux + mx)
        out.append((s[0].real, a[0].real, math.sqrt(np.sum((s[1:].imag / h) ** 2)), math.sqrt(np.sum((a[1:].imag / h) ** 2))))
    return out, (sxx[0].real, syy[0].real, sxy[0].real)


NAMES = ['yonx', 'xony', 'bisect', 'orthog', 'rma', 'mols']


def run(mon):
    import os
    import sys
    import inference
    sys.path.insert(0, os.path.join(os.path.dirname(inference.__file__), '..', 'regress'))
    import regress as R

    def points(rng, n=None):
        n = int(rng.choice([3, 4, int(rng.integers(5, 20)), int(rng.integers(20, 80))])) if n is None else n
        x = rng.normal(size=n) if rng.random() < .5 else rng.uniform(-1.7, 1.7, n)
        slope = float(rng.choice([-1, 1])) * 10 ** float(rng.uniform(-1, 1))
        y = slope * x + abs(slope) * 10 ** float(rng.uniform(-2, .3)) * rng.normal(size=n)
        sx, sy = 10 ** float(rng.uniform(-3, 3)), 10 ** float(rng.uniform(-3, 3))
        if rng.random() < .5:
            sy = sx = 1.
        x, y = x * sx, y * sy
        k = float(rng.choice([0, 0, 1, 30, 300]))
        x, y = x + k * sx * float(rng.normal()), y + k * sy * abs(slope) * float(rng.normal())
        if rng.random() < .1:
            x, y = np.rint(x * 50 / sx), np.rint(y * 50 / sy)
        return x, y

    def good(x, y):
        if len(x) < 2 or np.std(x) == 0 or np.std(y) == 0:
            return False
        r = np.corrcoef(x, y)[0, 1]
        return .02 < abs(r) < 1 - 1e-9

    def form(rng, a):
        k = int(rng.integers(5))
        if k == 0:
            return a.tolist()
        if k == 1:
            b = np.full(2 * len(a) + 1, np.nan)
            b[1::2] = a
            return b[1::2]
        if k == 2 and np.array_equal(a, np.rint(a)) and np.abs(a).max() < 1e9:
            return a.astype(int)
        if k == 3:
            b = a.copy()
            b.flags.writeable = False
            return b
        return a.copy()

    def scale(x, y):
        return 1 + (abs(x.mean()) / x.std()) ** 2 + (abs(y.mean()) / y.std()) ** 2

    def lines(obj, names, truth, x, y, method, errors=True, tol0=1e-9, **d):
        sx, sy = x.std(), y.std()
        for name, (s, a, ds, da) in zip(names, truth):
            r = getattr(obj, name)
            # differences of near numbers when slopes are small (or large, the other way round)
            tol = tol0 + 1e-14 * (1 + max(1 / truth[0][0] ** 2, truth[1][0] ** 2)) * (name in ('bisect', 'orthog'))
            if tol > 1e-5:
                mon.count('left to rounding')
                continue
            mag = abs(y.mean()) + abs(s * x.mean()) + sy
            mon.check(abs(r.slope - s) <= tol * (abs(s) + 0 * ds), method + ': slope', which=name, got=float(r.slope), want=s, x=x, y=y, **d)
            mon.check(abs(r.inter - a) <= tol * mag, method + ': intercept', which=name, got=float(r.inter), want=a, x=x, y=y, **d)
            if errors:
                mon.check(abs(r.serr - ds) <= tol * 50 * (ds + abs(s)), method + ': standard error of the slope', which=name, got=float(r.serr), want=ds,
                          x=x, y=y, **d)
                mon.check(abs(r.ierr - da) <= tol * 50 * (da + mag), method + ': standard error of the intercept', which=name, got=float(r.ierr),
                          want=da, x=x, y=y, **d)
            mon.check(np.array_equal(r.x, x) and np.array_equal(r.y, y) and r.npts == len(x), 'data kept with the result', which=name, x=x, y=y)
            mon.check(name in r.method, 'the method is named', got=r.method)

    def refuse(rng):
        x, y = points(rng, 6)
        e = np.full(6, .1)
        flat = np.array([1., 2., 3., 2., 1., 2.])
        level = np.full(6, 4.)
        for what, f in (('lengths', lambda: R.SixLin(x, y[:-1])), ('lengths', lambda: R.wlss(x[:-1], y, .1)), ('lengths', lambda: R.wlss(x, y, e[:-1])),
                        ('lengths', lambda: R.BCES(x, e, y, e[:-2], e)), ('lengths', lambda: R.BCES(x, e[:-1], y, e, e)),
                        ('lengths', lambda: R.BCES(x, e, y, e, e[1:])), ('lengths', lambda: R.BCES(x, e, y[1:], e, e)),
                        ('lengths', lambda: R.bistats(x, y[1:])), ('lengths', lambda: R.BiStats(x[1:], y)),
                        ('one point', lambda: R.SixLin(x[:1], y[:1])), ('one point', lambda: R.wlss(x[:1], y[:1], .1)),
                        ('one point', lambda: R.BCES(x[:1], .1, y[:1], .1, 0.)), ('one point', lambda: R.bistats(x[:1], y[:1])),
                        ('one point', lambda: R.BiStats(x[:1], y[:1])),
                        ('no covariance', lambda: R.SixLin(flat, level)), ('no covariance', lambda: R.wlss(flat, level, .1)),
                        ('no covariance', lambda: R.bistats(level, flat)), ('no covariance', lambda: R.BiStats(flat, level))):
            mon.count('refusals')
            mon.raises(ValueError, f, 'refused: ' + what)
        # any of the arguments shorter or longer than the others
        for name, f, args in (('SixLin', R.SixLin, [x, y]), ('wlss', R.wlss, [x, y, e]), ('BCES', R.BCES, [x, e, y, e, e * e * .1]),
                              ('bistats', R.bistats, [x, y]), ('BiStats', R.BiStats, [x, y])):
            for k in range(len(args)):
                for longer in (False, True):
                    b = list(args)
                    b[k] = np.concatenate([b[k], b[k][:2]]) if longer else b[k][:int(rng.integers(2, 6))]
                    if rng.random() < .3:
                        b = [v.tolist() for v in b]
                    mon.count('refusals')
                    mon.raises(ValueError, lambda: f(*b), 'refused: lengths that differ', function=name, argument=k, longer=longer)

    for i, rng in mon.cases('lines', 700, 20000):
        with mon.case('lines', i):
            x, y = points(rng)
            if not good(x, y):
                continue
            mon.note(x=x, y=y)
            fx, fy = form(rng, x), form(rng, y)
            kx, ky = np.array(fx, float), np.array(fy, float)
            tol = 1e-12 * scale(x, y) + 1e-11
            truth, (sxx, syy, sxy) = jackknife(x, y)
            rho = sxy / math.sqrt(sxx * syy)
            tol = tol / rho ** 2
            mon.count('six lines')
            S = R.SixLin(fx, fy)
            lines(S, NAMES, truth, x, y, 'SixLin', tol0=tol)
            # statistics
            mon.count('statistics')
            b = R.bistats(fx, fy)
            want = (x.mean(), math.sqrt(sxx), y.mean(), math.sqrt(syy), sxy, rho)
            size = (abs(x).max(), math.sqrt(sxx), abs(y).max(), math.sqrt(syy), math.sqrt(sxx * syy), 1.)
            for name, g, w, z in zip(('xbar', 'xstd', 'ybar', 'ystd', 'covar', 'rho'), b, want, size):
                mon.check(abs(g - w) <= tol * z * 10, 'bistats: ' + name, got=float(g), want=w)
            nocopy = bool(rng.random() < .4)
            B = R.BiStats(fx, fy, nocopy)
            for name, w, z in zip(('xbar', 'xstd', 'ybar', 'ystd', 'covar', 'rho'), want, size):
                mon.check(abs(getattr(B, name) - w) <= tol * z * 10, 'BiStats: ' + name, got=float(getattr(B, name)), want=w)
            if nocopy:
                mon.check(B.x is fx and B.y is fy, 'BiStats: refers to the data when told not to copy')
            else:
                mon.check(np.array_equal(B.x, x) and np.array_equal(B.y, y) and B.x is not fx and not np.shares_memory(B.x, np.asarray(fx)),
                          'BiStats: copies the data')
            # errors in one coordinate, and scatter
            ey = (float(10 ** rng.uniform(-2, .3)) * np.std(y - truth[0][1] - truth[0][0] * x) * np.ones(len(x)))
            one = bool(rng.random() < .3)
            if not one:
                ey = ey * rng.uniform(.3, 2., len(x))
            mon.count('scatter')
            r = R.wlss(fx, fy, float(ey[0]) if one else form(rng, ey))
            res = y - truth[0][1] - truth[0][0] * x
            ev = max(float(np.var(res) - np.mean(ey ** 2)), 0.)
            if ev == 0:
                mon.count('no scatter left')
            w = 1 / (ev + ey ** 2)
            xm, ym = np.sum(w * x) / w.sum(), np.sum(w * y) / w.sum()
            q = np.sum(w * (x - xm) ** 2)
            s = float(np.sum(w * (x - xm) * (y - ym)) / q)
            t2 = tol * 100 * (1 + ev / np.min(ey) ** 2 * 0)
            mag = abs(y.mean()) + abs(s * x.mean()) + y.std()
            lim = np.var(res) * 1e-9 + 1e-13 * y.var() * scale(x, y)
            if abs(np.var(res) - np.mean(ey ** 2)) > 1e-4 * np.var(res) and np.std(res) > 1e-6 * y.std():
                mon.check(abs(r.scat ** 2 - ev) <= lim * 10, 'wlss: scatter', got=float(r.scat), want=math.sqrt(ev))
                mon.check(abs(r.slope - s) <= t2 * (abs(s) + y.std() / x.std()), 'wlss: slope', got=float(r.slope), want=s, errors=ey)
                mon.check(abs(r.inter - (ym - s * xm)) <= t2 * mag, 'wlss: intercept', got=float(r.inter), want=ym - s * xm, errors=ey)
                mon.check(abs(r.serr - 1 / math.sqrt(q)) <= t2 / math.sqrt(q) * 10, 'wlss: standard error of the slope', got=float(r.serr), want=1 / math.sqrt(q))
                ie = math.sqrt(1 / w.sum() + xm ** 2 / q)
                mon.check(abs(r.ierr - ie) <= t2 * ie * 10, 'wlss: standard error of the intercept', got=float(r.ierr), want=ie)
            mon.check(np.array_equal(r.x, x) and np.array_equal(r.y, y) and np.array_equal(r.yerr, ey), 'wlss: data kept with the result')
            mon.check(r.ymin == (y - ey).min() and r.ymax == (y + ey).max() and r.xmin == x.min() and r.xmax == x.max(), 'ranges with the errors')
            mon.check(np.array_equal(kx, np.array(fx, float)) and np.array_equal(ky, np.array(fy, float)), 'the data are left as they are')
            if i % 10 == 0:
                refuse(rng)

    # -- two points, the fewest there can be ----------------------------------------------------------------------------
    for i, rng in mon.cases('two points', 240, 4000):
        with mon.case('two points', i):
            x, y = rng.normal(size=2) * 10 ** float(rng.uniform(-3, 3)), rng.normal(size=2) * 10 ** float(rng.uniform(-3, 3))
            dx, dy = (x[1] - x[0]) / 2, (y[1] - y[0]) / 2
            if min(abs(dx) / np.abs(x).max(), abs(dy) / np.abs(y).max()) < .01:
                continue
            mon.note(x=x, y=y)
            mon.count('two points')
            want = (x.mean(), abs(dx), y.mean(), abs(dy), dx * dy, math.copysign(1., dx * dy))
            size = (np.abs(x).max(), abs(dx), np.abs(y).max(), abs(dy), abs(dx * dy), 1.)
            B = R.BiStats(x, y)
            for k, (name, w, z, g) in enumerate(zip(('xbar', 'xstd', 'ybar', 'ystd', 'covar', 'rho'), want, size, R.bistats(x, y))):
                mon.check(abs(g - w) <= 1e-11 * z, 'bistats of two points: ' + name, got=float(g), want=w)
                mon.check(abs(getattr(B, name) - w) <= 1e-11 * z, 'BiStats of two points: ' + name, got=float(getattr(B, name)), want=w)

    for i, rng in mon.cases('both', 900, 20000):
        with mon.case('both', i):
            x, y = points(rng)
            if not good(x, y) or len(x) < 3:
                continue
            n = len(x)
            zero = rng.random() < .1
            ex = x.std() * float(rng.uniform(0, .6)) * np.ones(n) * (not zero)
            ey = y.std() * float(rng.uniform(0, .6)) * np.ones(n) * (not zero)
            kind = [bool(rng.random() < .25) for _ in range(3)]
            if not kind[0]:
                ex = ex * rng.uniform(.2, 1.8, n)
            if not kind[1]:
                ey = ey * rng.uniform(.2, 1.8, n)
            cor = float(rng.choice([0., 0., rng.uniform(-.6, .6)]))
            c = cor * ex * ey
            if kind[2]:
                c = np.full(n, c.mean())
            truth, (sxx, syy, sxy) = jackknife(x, y, ex, ey, c, six=False)
            whole = np.cov(x, y, bias=True)
            if not (sxx > .05 * x.var() and syy > .05 * y.var() and abs(sxy) > .05 * abs(whole[0, 1]) and sxy * whole[0, 1] > 0):
                continue
            mon.note(x=x, y=y, xerr=ex, yerr=ey, covar=c)
            mon.count('both errors')
            if not kind[0] and not kind[1]:
                mon.hit(i)
            rho = whole[0, 1] / math.sqrt(whole[0, 0] * whole[1, 1])
            tol = (1e-12 * scale(x, y) + 1e-11) / rho ** 2 * 400
            fx, fy = form(rng, x), form(rng, y)
            a = [form(rng, ex), form(rng, ey), form(rng, c)]
            args = [float(v[0]) if k else f for v, k, f in zip((ex, ey, c), kind, a)]
            keep = [np.array(v, float) for v in (fx, fy, *a)]
            r = R.BCES(fx, args[0], fy, args[1], args[2])
            lines(r, NAMES[:4], truth, x, y, 'BCES', tol0=tol)
            for name in NAMES[:4]:
                q = getattr(r, name)
                mon.check(np.array_equal(q.xerr, ex) and np.array_equal(q.yerr, ey), 'errors kept with the result', which=name)
                mon.check(q.xmin == (x - ex).min() and q.xmax == (x + ex).max() and q.ymin == (y - ey).min() and q.ymax == (y + ey).max(),
                          'ranges with the errors', which=name)
            mon.check(all(np.array_equal(k, np.array(v, float)) for k, v in zip(keep, (fx, fy, *a))), 'the data are left as they are')
            if zero:
                S = R.SixLin(x, y)
                for name in NAMES[:4]:
                    # differences of near numbers, as above
                    off = tol + 2e-14 * (1 + max(1 / truth[0][0] ** 2, truth[1][0] ** 2)) * (name in ('bisect', 'orthog'))
                    mon.check(abs(getattr(r, name).slope - getattr(S, name).slope) <= off * abs(getattr(S, name).slope),
                              'without errors the fits are those of SixLin', which=name)

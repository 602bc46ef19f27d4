"""C03: highest-posterior-density regions: normalisation, content, critical levels and boundaries."""
import numpy as np
from scipy import stats

MODES = ['plain', 'poison']
RULE = ('random 1-D and 2-D (log) densities on linear and logarithmic grids -- Gaussian, gamma, multimodal, clipped '
        'plateau, floor, nearly flat, monotone, with zero-density stretches, mass at the grid edges, any constant '
        'offset -- queried for several contents and tolerances; non-trivial: the density is not constant')
ASSUMPTIONS = ['content is defined by the linear interpolant of the density between grid points (of x p(x) in log x on '
               'logarithmic grids); in 2-D by that rule along one axis and the trapezoid rule along the other',
               'the number of boundaries supported is ten, as documented']


def minimums(tier):
    return {'levels solved': 1500, 'boundaries': 1500, 'too many boundaries': 10, '2-D levels': 250, 'edges on grid points': 200, 'log grids': 200}


def content1d(d, crit):
    """Integral (unit step) of the piecewise linear d over where it exceeds crit."""
    a, b = d[:-1], d[1:]
    hi, lo = np.maximum(a, b), np.minimum(a, b)
    with np.errstate(all='ignore'):
        part = .5 * (hi + crit) * (hi - crit) / (hi - lo)
    return float(np.sum(np.where(lo > crit, .5 * (a + b), np.where(hi > crit, part, 0.))))


def content2d(d, crit):
    rows = np.array([content1d(r, crit) for r in d])
    return float(rows.sum() - .5 * rows[0] - .5 * rows[-1])


def gen_log1d(rng, x):
    """log density over the points x, and its kind"""
    n = len(x)
    u = (x - x[0]) / (x[-1] - x[0])
    kind = ['gauss', 'gamma', 'multi', 'plateau', 'floor', 'flat', 'monotone', 'zeros', 'rough'][int(rng.integers(9))]
    c, w = rng.uniform(-.1, 1.1), 10 ** rng.uniform(-1.3, .3)
    g = -.5 * ((u - c) / w) ** 2
    if kind == 'gamma':
        k = rng.uniform(.5, 20)
        t = u * 4 * (k + 1) + 1e-9
        g = (k - 1) * np.log(t) - t
    elif kind == 'multi':
        m = int(rng.integers(2, 5))
        g = np.logaddexp.reduce([np.log(rng.uniform(.2, 1)) - .5 * ((u - rng.uniform(0, 1)) / rng.uniform(.03, .12)) ** 2
                                 for _ in range(m)])
    elif kind == 'plateau':
        g = np.minimum(g, g.max() - rng.uniform(.05, 1))
    elif kind == 'floor':
        g = np.maximum(g, g.max() - rng.uniform(1, 6))
    elif kind == 'flat':
        g = rng.uniform(.01, .4) * np.cos(u * rng.uniform(.5, 6) + rng.uniform(0, 6))
    elif kind == 'monotone':
        g = rng.uniform(-8, 8) * u
    elif kind == 'zeros':
        a, b = sorted(rng.uniform(0, 1, 2))
        if b - a < .3:
            a, b = .2, .8
        g = np.where((u < a) | (u > b), -np.inf, g - (g[(u >= a) & (u <= b)].max() if np.any((u >= a) & (u <= b)) else 0))
        if not np.isfinite(g).sum() > 2:
            g = -.5 * ((u - .5) / .2) ** 2
    elif kind == 'rough':
        g = g + rng.normal(size=n) * rng.uniform(.05, 2)
    return g + rng.choice([0., 1., -1000., 1000., float(rng.normal() * 50)]), kind


def grid(rng, log=False, n=None):
    n = n or int(rng.choice([3, 5, 8, 11, 30, 51, 101, 257, 600, 1001, 2500]))
    if log:
        lo = 10 ** rng.uniform(-4, 4)
        hi = lo * 10 ** rng.uniform(.2, 3)
        return lo, hi, n, np.exp(np.linspace(np.log(lo), np.log(hi), n))
    lo = rng.normal() * 10 ** rng.uniform(-2, 3)
    hi = lo + 10 ** rng.uniform(-2, 3)
    if rng.random() < .1:
        lo = int(rng.integers(-20, 20))
        hi = lo + int(rng.integers(1, 40))
    return lo, hi, n, np.linspace(lo, hi, n)


def run(mon):
    from inference.grid import hpd, hpdgrid
    from inference.grid.hpd import HPD1D, HPD2D
    from inference.grid.hpdgrid import HPDGrid1D, HPDGrid2D

    for i, rng in mon.cases('1d', 1500, 15000):
        log = bool(rng.random() < .35)
        lo, hi, n, x = grid(rng, log)
        # on log grids the density p(x) is made so that x p(x) has the chosen shape, or directly
        g, kind = gen_log1d(rng, np.log(x) if log else x)
        direct = bool(rng.random() < .5)
        lp = g - np.log(x) if log and direct else g
        step = str(rng.choice(['log', 'logarithmic'] if log else ['linear', 'lin']))
        fn = bool(rng.random() < .4)
        lay = str(rng.choice(['plain', 'plain', 'int', 'strided', 'reversed', 'readonly']))
        if lay == 'int' and np.all(np.isfinite(lp)):
            lp = np.round(lp * 3).astype(int)
        elif lay == 'strided':
            lp = np.repeat(lp, 3)[::3]
        elif lay == 'reversed':
            lp = lp[::-1].copy()[::-1]
        elif lay == 'readonly':
            lp.setflags(write=False)
        with mon.case('1d', i, layout=lay, kind=kind, step=step, lo=lo, hi=hi, n=n, from_function=fn, logpdf=lp):
            keep = lp.copy()
            if fn:
                calls = []
                table = dict()

                def f(v):
                    calls.append(float(v))
                    j = int(np.argmin(np.abs(x - v)))
                    return lp[j]
                h = HPDGrid1D(f, lo, hi, n, step)
                mon.check(len(calls) == n, 'the function is evaluated once per grid point', calls=len(calls), n=n)
                mon.close(np.sort(calls), x, 'the function is evaluated at the grid points', rtol=1e-10,
                          atol=1e-10 * (hi - lo))
            else:
                h = HPD1D(lp, lo, hi, step)
            lpd = lp + np.log(x) if log else lp
            mx = lpd.max()
            d = np.exp(lpd - mx)
            delta = (np.log(hi / lo) if log else hi - lo) / (n - 1.)
            tot = content1d(d, -1.)
            mon.close(h.norm(), np.log(tot * delta) + mx, 'log normalisation constant', rtol=1e-9, atol=1e-8)
            mon.close(h.lml, np.log(tot * delta) + mx, 'log marginal likelihood', rtol=1e-9, atol=1e-8)
            # content as a function of the level
            lrs = np.sort(np.concatenate([-10 ** rng.uniform(-3, 1.5, 5), [0., .5]]))
            fr = np.array([h.fracgt(lr) for lr in lrs])
            want = np.array([content1d(d, np.exp(lr)) / tot for lr in lrs])
            # exact ties of the density with the level are decided by rounding
            tie = np.array([np.any(np.abs(lpd - mx - lr) < 1e-9) for lr in lrs])
            mon.close(fr[~tie], want[~tie], 'content above a level', rtol=1e-7, atol=1e-9)
            mon.check(np.all(np.diff(fr) <= 1e-12), 'content falls as the level rises', levels=lrs, content=fr)
            mon.check(np.all((fr >= -1e-15) & (fr <= 1 + 1e-12)), 'content is a fraction', content=fr)
            npast = 0
            for _ in range(int(rng.choice([1, 3, 3, 3, 12]))):
                if rng.random() < .75:
                    p = float(rng.choice([.5, .683, .954, .95, .9, .99, float(rng.uniform(.02, .995))]))
                    arg = dict(p=p)
                else:
                    ns = float(rng.choice([1., 2., .5, 2.5]))
                    p, arg = float(stats.chi2.cdf(ns ** 2, 1)), dict(snsig=ns)
                if rng.random() < .3:
                    arg['tol'] = float(10 ** rng.uniform(-10, -3))
                tol = arg.get('tol', 3.e-4)
                mon.note(query=arg)
                try:
                    lr, b = h.critlevel(**arg)
                except RuntimeError as e:
                    # More than ten boundaries is the one documented refusal; the level itself is still recorded.
                    mon.require('boundary' in str(e) and len(h.deltas) == npast + 1, 'critlevel fails only for too many '
                                'boundaries', error=str(e))
                    lr = h.deltas[-1]
                    rel = lpd - mx
                    ncross = int(np.sum((rel[:-1] < lr) != (rel[1:] < lr)))
                    tie = np.any(np.abs(rel[np.isfinite(rel)] - lr) < 1e-9)  # a plateau within rounding of the level
                    mon.check(ncross > 10 or tie, 'up to ten boundaries are supported', crossings=ncross)
                    mon.count('too many boundaries')
                    b = None
                npast += 1
                up, dn = content1d(d, np.exp(lr + 2 * tol)) / tot, content1d(d, np.exp(lr - 2 * tol)) / tot
                mon.check(dn >= p - 1e-7 and up <= p + 1e-7, 'the critical level bounds a region of the content asked '
                          'for', p=p, level=lr, content_above=up, content_below=dn)
                mon.check(h.probs[-1] == p or abs(h.probs[-1] - p) < 1e-12, 'the content is recorded', got=h.probs[-1])
                mon.check(len(h.probs) == len(h.deltas) == len(h.levels) == npast, 'every query is recorded once')
                mon.check(h.deltas[-1] == lr, 'the relative level is recorded')
                mon.close(h.levels[-1], mx + lr, 'the absolute level is recorded', rtol=1e-12, atol=1e-9)
                mon.count('levels solved')
                if b is not None:
                    b = np.asarray(b)
                    rel = lpd - mx
                    cross = np.flatnonzero((rel[:-1] < lr) != (rel[1:] < lr))
                    if np.any(np.abs(rel[np.isfinite(rel)] - lr) < 1e-9):
                        mon.count('level ties')
                        continue
                    mon.require(len(b) == len(cross), 'one boundary per crossing of the level', got=b,
                                want=len(cross), level=lr)
                    for xb, j in zip(b, cross):
                        y0, y1 = rel[j], rel[j + 1]
                        if np.isfinite(y0) and np.isfinite(y1):
                            w = x[j] + (x[j + 1] - x[j]) * (lr - y0) / (y1 - y0)
                            mon.check(abs(w - xb) <= 1e-6 * (x[j + 1] - x[j]) + 1e-9 * abs(x[j]),
                                      'boundary interpolated in its cell', got=xb, want=w, cell=[x[j], x[j + 1]])
                        else:
                            mon.check(x[j] * (1 - 1e-9 * np.sign(x[j])) <= xb <= x[j + 1] * (1 + 1e-9 * np.sign(x[j + 1])),
                                      'boundary inside its cell', got=xb, cell=[x[j], x[j + 1]])
                    mon.check(np.array_equal(h.bounds[-1], b), 'the boundaries are recorded')
                    mon.count('boundaries', len(b))
            mon.check(np.array_equal(lp, keep), 'the density given is left alone')
            mon.seen('(kind, step)', kind + step)
            if log:
                mon.count('log grids')
            if np.ptp(d) > 0:
                mon.hit(kind, step, lo, hi, n)
            mon.sample(levels=h.deltas, contents=h.probs)

    for i, rng in mon.cases('1d-analytic', 200, 2000):
        # Against the true regions of a Gaussian, in x or in log x, on fine grids.
        mu, sg = float(rng.normal() * 3), float(10 ** rng.uniform(-1, 1))
        log = bool(rng.random() < .5)
        if log:
            sg = min(sg, 1.)
        c = float(rng.choice([0., 300., -40.]))
        n = int(rng.integers(400, 1200))
        with mon.case('1d-analytic', i, mu=mu, sigma=sg, log=log, n=n):
            w = float(rng.uniform(5, 7))
            if log:
                lo, hi = np.exp(mu - w * sg), np.exp(mu + w * sg)
                h = HPDGrid1D(lambda x: -.5 * ((np.log(x) - mu) / sg) ** 2 - np.log(x) + c, lo, hi, n, 'log')
            else:
                lo, hi = mu - w * sg, mu + w * sg
                h = HPDGrid1D(lambda x: -.5 * ((x - mu) / sg) ** 2 + c, lo, hi, n)
            mon.close(h.norm(), c + np.log(np.sqrt(2 * np.pi) * sg), 'normalisation of a Gaussian', atol=1e-4, rtol=0)
            for ns in rng.uniform(.3, 3, 3):
                p = float(stats.chi2.cdf(ns ** 2, 1))
                lr, b = h.critlevel(p, tol=1e-6)
                mon.close(lr, -.5 * ns ** 2, 'critical level of a Gaussian', atol=2e-3, rtol=2e-3)
                bb = np.log(b) if log else np.asarray(b)
                mon.close(bb, [mu - ns * sg, mu + ns * sg], 'region of a Gaussian', atol=2e-3 * sg, rtol=1e-9)
                mon.count('analytic levels')
            mon.hit('analytic', mu, sg, log)

    for i, rng in mon.cases('2d', 300, 3000):
        xl, yl = bool(rng.random() < .3), bool(rng.random() < .3)
        xlo, xhi, nx, x = grid(rng, xl, int(rng.choice([4, 9, 21, 40])))
        ylo, yhi, ny, y = grid(rng, yl, int(rng.choice([4, 8, 25, 33])))
        gx, k1 = gen_log1d(rng, np.log(x) if xl else x)
        gy, k2 = gen_log1d(rng, np.log(y) if yl else y)
        u = (np.arange(nx) / (nx - 1.))[:, None] - rng.uniform(0, 1)
        v = (np.arange(ny) / (ny - 1.)) - rng.uniform(0, 1)
        g = gx[:, None] + gy + rng.uniform(-3, 3) * u * v
        if rng.random() < .5:
            g = g - (np.log(x)[:, None] if xl else 0) - (np.log(y) if yl else 0)
        fn = bool(rng.random() < .4)
        forder = bool(rng.random() < .5)
        xs, ys = str(rng.choice(['log', 'logarithmic'] if xl else ['linear', 'lin'])), 'log' if yl else 'linear'
        with mon.case('2d', i, kinds=(k1, k2), steps=(xs, ys), nx=nx, ny=ny, from_function=fn, x=(xlo, xhi), y=(ylo, yhi)):
            lp = np.asfortranarray(g) if forder else np.repeat(np.repeat(g, 2, 0), 2, 1)[::2, ::2] if rng.random() < .2 else g
            keep = lp.copy()
            if fn:
                calls = []

                def f(a, b):
                    calls.append((float(a), float(b)))
                    return lp[int(np.argmin(np.abs(x - a))), int(np.argmin(np.abs(y - b)))]
                h = HPDGrid2D(f, xlo, xhi, nx, ylo, yhi, ny, xs, ys)
                mon.check(len(set(calls)) == nx * ny == len(calls), 'one evaluation per grid point', calls=len(calls))
            else:
                h = HPD2D(lp, xlo, xhi, ylo, yhi, xs, ys)
            lpd = lp + (np.log(x)[:, None] if xl else 0) + (np.log(y) if yl else 0)
            mx = lpd.max()
            d = np.exp(lpd - mx)
            dx = (np.log(xhi / xlo) if xl else xhi - xlo) / (nx - 1.)
            dy = (np.log(yhi / ylo) if yl else yhi - ylo) / (ny - 1.)
            tot = content2d(d, -1.)
            mon.close(h.lml, np.log(tot * dx * dy) + mx, '2-D log normalisation', rtol=1e-9, atol=1e-8)
            lrs = np.sort(np.concatenate([-10 ** rng.uniform(-2, 1.3, 4), [.3]]))
            fr = np.array([h.fracgt(lr) for lr in lrs])
            tie = np.array([np.any(np.abs(lpd - mx - lr) < 1e-9) for lr in lrs])
            for lr, got, t in zip(lrs, fr, tie):
                a, b = content2d(d, np.exp(lr)) / tot, content2d(d.T, np.exp(lr)) / tot
                mon.check(t or min(abs(got - a), abs(got - b)) < 1e-7, '2-D content above a level', level=lr, got=got,
                          want=a, or_=b)
            mon.check(np.all(np.diff(fr) <= 1e-12), '2-D content falls as the level rises', levels=lrs, content=fr)
            for q in range(2):
                p = float(rng.choice([.5, .683, .954, float(rng.uniform(.03, .99))]))
                tol = float(10 ** rng.uniform(-8, -3))
                lr = h.critlevel(p, tol=tol)
                ok = False
                for dd in (d, d.T):
                    up, dn = content2d(dd, np.exp(lr + 2 * tol)) / tot, content2d(dd, np.exp(lr - 2 * tol)) / tot
                    ok = ok or (dn >= p - 1e-7 and up <= p + 1e-7)
                mon.check(ok, '2-D critical level bounds the content asked for', p=p, level=lr, up=up, dn=dn)
                mon.check(h.probs[-1] == p and h.deltas[-1] == lr and len(h.probs) == len(h.deltas) == len(h.levels)
                          == q + 1, '2-D queries are recorded')
                mon.close(h.levels[-1], mx + lr, '2-D absolute level', rtol=1e-12, atol=1e-9)
                mon.count('2-D levels')
            mon.check(np.array_equal(lp, keep), 'the 2-D density given is left alone')
            mon.close([h.xlo, h.xhi, h.ylo, h.yhi], [xlo, xhi, ylo, yhi], 'the ranges are kept')
            mon.hit('2d', k1, k2, xs, ys, xlo, ylo)

    from inference.grid._gridquad import xvalues
    for i, rng in mon.cases('edges', 400, 4000):
        # The edges themselves, with values on the level at grid points; all numbers are exact in binary.
        n = int(rng.choice([2, 3, 5, 9, 17, 40, 200]))
        x = np.cumsum(rng.integers(1, 9, n)) / 4. - rng.integers(0, 50)
        top = int(rng.choice([2, 3, 5]))
        y = rng.integers(-top, top, n) / 2.
        if rng.random() < .4:
            y = np.repeat(y, int(rng.integers(2, 6)))[:n]
        crit = float(rng.integers(-top, top) / 2.)
        off = float(rng.choice([0., 0., 64., -1024.]))
        cap = int(rng.choice([1, 2, 3, 10, 10, 50]))
        with mon.case('edges', i, x=x, y=y, crit=crit, offset=off, cap=cap):
            a = np.flatnonzero((y[:-1] < crit) != (y[1:] < crit))
            keep = x.copy(), y.copy()
            got, nb, ok = xvalues(x, y + off, crit + off, cap)
            mon.check(np.array_equal(x, keep[0]) and np.array_equal(y, keep[1]), 'the arrays given are left alone')
            mon.check(bool(ok) == (len(a) <= cap), 'too many edges are reported, and only then', edges=len(a), ok=ok)
            if ok and len(a) <= cap:
                want = x[a] + (x[a + 1] - x[a]) * (crit - y[a]) / (y[a + 1] - y[a])
                mon.check(nb == len(a), 'every crossing is an edge', got=nb, want=len(a))
                mon.close(got[:nb], want, 'edges where the interpolant has the level', rtol=1e-12, atol=1e-12)
                on = np.isin(want, x)
                mon.count('edges on grid points', int(on.sum()))
            mon.hit('edges', i, len(a))

    for i, rng in mon.cases('refusals', 16, 60):
        bad = ['step', 'both', 'dims1', 'dims2', 'xstep', 'ystep', 'both2', 'gstep'][i % 8]
        with mon.case('refusals', i, bad=bad):
            n, m = int(rng.integers(4, 30)), int(rng.integers(4, 30))
            g1 = -.5 * np.linspace(-4, 4, n) ** 2
            g2 = g1[:, None] - .5 * np.linspace(-4, 4, m) ** 2
            h1, h2 = HPD1D(g1, 1., 2.), HPD2D(g2, 1., 2., 3., 4.)
            f = {'step': lambda: HPD1D(g1, 1., 2., 'square'), 'both': lambda: h1.critlevel(.5, 1.),
                 'dims1': lambda: HPD1D(g2, 1., 2.), 'dims2': lambda: HPD2D(g1, 1., 2., 3., 4.),
                 'xstep': lambda: HPD2D(g2, 1., 2., 3., 4., 'sqrt', 'lin'),
                 'ystep': lambda: HPD2D(g2, 1., 2., 3., 4., 'lin', 'sqrt'),
                 'both2': lambda: h2.critlevel(.5, 1.),
                 'gstep': lambda: HPDGrid1D(lambda v: -v, 1., 2., n, 'sqrt')}[bad]
            mon.raises(ValueError, f, 'bad arguments are refused')
            mon.check(not h1.probs and not h2.probs, 'a refused query is not recorded')
            mon.hit('refusals', bad)

    for i, rng in mon.cases('2d-analytic', 40, 300):
        rho = float(rng.uniform(-.7, .7))
        s1, s2 = 10 ** rng.uniform(-1, 1, 2)
        n1, n2 = int(rng.integers(90, 140)), int(rng.integers(90, 140))
        with mon.case('2d-analytic', i, rho=rho, s=(s1, s2), n=(n1, n2)):
            x, y = np.linspace(-5.5 * s1, 5.5 * s1, n1), np.linspace(-5.5 * s2, 5.5 * s2, n2)
            X, Y = x[:, None] / s1, y / s2
            h = HPD2D(-.5 * (X ** 2 - 2 * rho * X * Y + Y ** 2) / (1 - rho ** 2), x[0], x[-1], y[0], y[-1])
            mon.close(h.lml, np.log(2 * np.pi * s1 * s2 * np.sqrt(1 - rho ** 2)), '2-D Gaussian normalisation', atol=2e-3,
                      rtol=0)
            for p in rng.uniform(.1, .99, 3):
                mon.close(h.critlevel(float(p)), np.log(1 - p), '2-D Gaussian level', atol=2e-2, rtol=2e-2)
            mon.hit('2da', rho, s1, s2)

    for i, rng in mon.cases('normal-theory', 60, 300):
        nd = int(rng.integers(1, 7))
        ns = float(rng.uniform(.1, 4))
        with mon.case('normal-theory', i, nd=nd, nsig=ns):
            for m in (hpd, hpdgrid):
                p = m.sig2prob(nd, ns)
                mon.close(p, stats.chi2.cdf(ns ** 2, nd), 'content of the normal within nsig', rtol=1e-9)
                mon.close(m.prob2sig(nd, p), ns, 'nsig for the content', rtol=1e-6)
                mon.close(m.sig2ratio(nd, ns), np.exp(-.5 * ns ** 2), 'density ratio at nsig', rtol=1e-9)
                mon.close(m.prob2ratio(nd, p), np.exp(-.5 * ns ** 2), 'density ratio for the content', rtol=1e-5)
                mon.close(m.prob2dens(nd, p), np.exp(-.5 * ns ** 2) / (2 * np.pi) ** (nd / 2.), 'density for the content',
                          rtol=1e-5)
            for c, d in ((HPD1D, 1), (HPD2D, 2)):
                for k in (1, 2, 3):
                    mon.close(getattr(c, 'p%dsig' % k), stats.chi2.cdf(k * k, d), 'content of the normal within so many sigmas, with the class',
                              rtol=1e-9, sigmas=k, dimensions=d)
                    mon.close(getattr(c, 'ratio%d' % k), np.exp(-.5 * k * k), 'density ratio there, with the class', rtol=1e-9, sigmas=k, dimensions=d)
            mon.hit('nt', nd, ns)

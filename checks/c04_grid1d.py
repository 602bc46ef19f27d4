"""C04: adaptively refined 1-D grids: structure, values, peaks and quadrature."""
import numpy as np
from scipy.special import logsumexp

RULE = ('random log-densities (mixtures of resolved and unresolved peaks, edge peaks, monotone, flat, plateau, rough) '
        'on linear and logarithmic base grids with random refinement settings, scalar and tuple valued, plus random '
        'histories of interval refinements incl. ones aligned with grid points to within an ulp; non-trivial: the '
        'grid was refined')
ASSUMPTIONS = ['function values are finite', 'ranges are increasing (reverse-sense grids are not covered)']


def minimums(tier):
    return {'refined grids': 250, 'interval updates': 1500, 'points compared': 40000, 'peaks compared': 400,
            'log refined': 60, 'grids used again': 150, 'refined twice': 80}


def trap(x, v):
    return float(np.sum(.5 * np.diff(x) * (v[1:] + v[:-1])))


def logtrap(x, lv):
    w = np.zeros(len(x))
    d = np.diff(x)
    w[:-1] += .5 * d
    w[1:] += .5 * d
    keep = w > 0
    return float(logsumexp(lv[keep], b=w[keep])), w


def gen_range(rng):
    log = bool(rng.random() < .4)
    n = int(rng.choice([2, 3, 5, 8, 20, 40, 101, 64, 400]))
    u = rng.random()
    if log:
        lo = float(10 ** rng.uniform(-3, 3))
        hi = lo * float(10 ** rng.uniform(.1, 3))
    elif u < .4:
        h = float(rng.choice([1., .1, .5, .3, 2.]))
        lo = float(rng.choice([0., -1., 5., .1, -10.]))
        hi = lo + h * (n - 1)
        if h >= 1 and rng.random() < .3:
            lo, hi = int(lo), int(lo) + int(h) * (n - 1)
    else:
        lo = float(rng.normal() * 10 ** rng.uniform(-1, 2))
        hi = lo + float(10 ** rng.uniform(-1, 2))
    return lo, hi, n, log


def gen_func(rng, lo, hi, n, log):
    """A finite log density over [lo, hi]"""
    kind = ['peaks', 'narrow', 'edge', 'monotone', 'flat', 'plateau', 'rough', 'aligned'][int(rng.integers(8))]
    T = np.log if log else (lambda x: x)
    a, b = T(lo), T(hi)
    c0 = float(rng.choice([0., 0., 500., -800.]))
    if kind in ('peaks', 'narrow', 'edge', 'aligned'):
        m = int(rng.integers(1, 5))
        if kind == 'aligned':
            # peaks on grid points whose refined windows end on grid points
            h = (b - a) / (n - 1.)
            cs = a + h * rng.integers(0, n, m)
            ws = h * rng.choice([.5, 1., 2., .25], m)
        else:
            cs = rng.uniform(a, b, m) if kind != 'edge' else rng.choice([a, b], m) + (b - a) * rng.normal(size=m) * .02
            ws = (b - a) * 10 ** (rng.uniform(-1.7, -.5, m) if kind != 'narrow' else rng.uniform(-3.5, -1.5, m))
        am = np.log(rng.uniform(.05, 1, m)) if rng.random() < .8 else rng.uniform(-20, 0, m)
        fl = float(rng.uniform(-60, -8))

        def f(x):
            t = T(x)
            z = [am[k] - .5 * ((t - cs[k]) / ws[k]) ** 2 for k in range(m)] + [fl]
            mx = max(z)
            return c0 + mx + float(np.log(sum(np.exp(np.array(z) - mx))))
    elif kind == 'monotone':
        s = float(rng.uniform(-10, 10)) / (b - a)

        def f(x):
            return c0 + s * (T(x) - a)
    elif kind == 'flat':
        def f(x):
            return c0
    elif kind == 'plateau':
        cc, w, top = rng.uniform(a, b), (b - a) * rng.uniform(.05, .4), rng.uniform(.1, 2)

        def f(x):
            return c0 + min(-.5 * ((T(x) - cc) / w) ** 2, -top)
    else:
        ph, fr, am = rng.uniform(0, 6, 3), rng.uniform(2, 40, 3) / (b - a), rng.uniform(.2, 3, 3)

        def f(x):
            return c0 + float(np.sum(am * np.sin(fr * (T(x) - a) + ph)))
    return f, kind


def gaussian_through(x, y):
    """(log A, mean, sigma) of the Gaussian through three points of its log, by solving for the parabola."""
    x, y = np.asarray(x, dtype=np.longdouble), np.asarray(y, dtype=np.longdouble)
    d1, d2 = (y[1] - y[0]) / (x[1] - x[0]), (y[2] - y[1]) / (x[2] - x[1])
    a = (d2 - d1) / (x[2] - x[0])
    mean = .5 * (x[0] + x[1]) - d1 / (2 * a)
    sig = np.sqrt(-1 / (2 * a))
    return float(y[1] + .5 * (x[1] - mean) ** 2 / sig ** 2), float(mean), float(sig)


def expected_peaks(x, y, rank):
    """(measure, index, logA, mean, sig) of every local maximum of the samples"""
    out = []
    n = len(x)
    if n < 3:
        return out
    rt = np.sqrt(2 * np.pi)
    for i in range(1, n - 1):
        if y[i - 1] < y[i] and y[i] >= y[i + 1]:
            A, m, s = gaussian_through(x[i - 1:i + 2], y[i - 1:i + 2])
            out.append((A if rank == 'peak' else A + np.log(s * rt), i, A, m, s))
    if y[0] > y[1]:
        s = .5 * (x[1] - x[0]) / (y[0] - y[1])
        out.append((y[0] if rank == 'peak' else y[0] + np.log(.5 * s * rt), 0, y[0], x[0], s))
    if y[-1] > y[-2]:
        s = .5 * (x[-1] - x[-2]) / (y[-1] - y[-2])
        out.append((y[-1] if rank == 'peak' else y[-1] + np.log(.5 * s * rt), n - 1, y[-1], x[-1], s))
    return out


def check_peaks(mon, lml, x, y, rank, nmax, logdyn, what):
    """The list holds the best local maxima, best first."""
    want = sorted(expected_peaks(x, y, rank), key=lambda t: -t[0])
    got = [lml[k] for k in range(len(lml))]
    ms = [g[0] for g in got]
    scale = 1e-6 * (1 + max([abs(m) for m in ms] or [0]))
    mon.check(all(ms[k] >= ms[k + 1] for k in range(len(ms) - 1)), what + ': maxima are listed best first', measures=ms)
    if nmax is not None:
        mon.check(len(got) <= nmax, what + ': no more maxima than asked for', n=len(got), nmax=nmax)
    if want:
        top = want[0][0]
        must = [w for w in want if logdyn is None or top - w[0] < logdyn - scale]
        may = [w for w in want if logdyn is None or top - w[0] <= logdyn + scale]
        if nmax is not None:
            must, may_n = must[:nmax], min(len(may), nmax)
        else:
            may_n = len(may)
        mon.check(len(must) <= len(got) <= max(may_n, len(must)), what + ': every maximum in range is listed',
                  got=len(got), must=len(must), may=may_n)
        byidx = {w[1]: w for w in want}
        seen = set()
        for k, (msr, lab) in enumerate(got):
            w = byidx.get(lab[0])
            if w is None or lab[0] in seen:
                mon.check(False, what + ': only local maxima are listed, once', index=lab[0])
                return
            seen.add(lab[0])
            mon.close(msr, want[k][0], what + ': ranking measure', rtol=1e-6, atol=scale)
            span = abs(x[min(lab[0] + 1, len(x) - 1)] - x[max(lab[0] - 1, 0)])
            mon.close(list(lab[1:]), list(w[2:]), what + ': peak parameters', rtol=1e-4,
                      atol=1e-6 * span + scale)
            mon.count('peaks compared')
    else:
        mon.check(not got, what + ': no maxima, none listed', got=got)


def run(mon):
    from inference.grid import grid1d
    from inference.grid.grid1d import (Grid1D, BasicGrid1D, LabeledMaxList, RefinedIntervalList1D, PeakParams)

    for i, rng in mon.cases('grid', 700, 7000):
        lo, hi, n, log = gen_range(rng)
        f, kind = gen_func(rng, lo, hi, n, log)
        nmax = None if rng.random() < .5 else int(rng.integers(1, 5))
        dyn = float(rng.choice([1e5, 10., 1e12]))
        sigpts, nsig = int(rng.choice([3, 11, 21])), int(rng.choice([1, 3, 4, 5]))
        rank = str(rng.choice(['peak', 'area', 'peak', 'Peak']))
        tup = bool(rng.random() < .3)
        stype = str(rng.choice(['log', 'logarithmic', 'Log'] if log else ['linear', 'lin', 'Lin']))
        with mon.case('grid', i, lo=lo, hi=hi, n=n, stype=stype, function=kind, nmax=nmax, dynrange=dyn, sigpts=sigpts,
                      nsig=nsig, rank=rank, tuple=tup):
            T = np.log if log else (lambda v: v)
            outside = []

            def g(x):
                if not (lo <= x <= hi):
                    outside.append(float(x))
                v = f(x)
                return (x, v, 2. * x) if tup else v
            sel = 1 if tup else None
            kw = dict(select=1) if tup else {}
            G = Grid1D(lo, hi, n, stype, nmax=nmax, dynrange=dyn, sigpts=sigpts, nsig=nsig, rank=rank)
            G.firstpass(g, select=sel)

            def points(stage):
                N = len(G)
                P = [G.point(k) for k in range(N)]
                x = np.array([p[0] for p in P], float)
                w = np.array([p[1] for p in P], float)
                v = np.array([(p[2][1] if tup else p[2]) for p in P], float)
                if tup:
                    mon.close([p[2][0] for p in P], x, stage + ': tuple values belong to their point', rtol=1e-9,
                              atol=1e-9 * (hi - lo))
                mon.close([x[0], x[-1]], [lo, hi], stage + ': the grid ends are the ends of the range', rtol=1e-12,
                          atol=1e-12 * (hi - lo))
                mon.require(np.all(np.diff(x) > 0), stage + ': points are in increasing order',
                            worst=float(np.diff(x).min()))
                mon.close(w[:-1], np.diff(x), stage + ': widths lead to the next point', rtol=1e-5,
                          atol=1e-9 * (hi - lo))
                mon.check(w[-1] == 0, stage + ': the last width vanishes')
                fx = np.array([f(t) for t in x])
                slack = 1e-9 * (1 + np.abs(fx)) + np.maximum(np.abs(fx - np.array([f(min(max(t * (1 + 4e-15), lo), hi))
                                                                                for t in x])),
                                                           np.abs(fx - np.array([f(min(max(t * (1 - 4e-15), lo), hi))
                                                                                 for t in x])))
                mon.check(np.all(np.abs(v - fx) <= slack), stage + ': the value at a point is the function there',
                          worst=float(np.max(np.abs(v - fx) - slack)))
                gap, base = np.diff(T(x)), (T(hi) - T(lo)) / (n - 1.)
                mon.check(gap.max() <= base * (1 + 1e-6), stage + ': nowhere coarser than the base grid',
                          gap=float(gap.max()), base=float(base))
                mon.check(gap.min() > 1e-9 * base * 1e-3, stage + ': no coincident points', gap=float(gap.min()))
                mon.count('points compared', N)
                k = int(rng.integers(N))
                mon.check(G[k][0] == P[k][0] and np.array_equal(G[k][2], P[k][2]), stage + ': indexing gives the point')
                mon.check([p[0] for p in G] == x.tolist(), stage + ': iteration visits every point in order')
                for bad in (-1, N):
                    mon.raises((ValueError, IndexError), lambda: G.point(bad), stage + ': points out of range are refused')
                # quadrature
                a = G.trapzd(**kw)
                mon.close(a, trap(x, v), stage + ': trapezoid quadrature', rtol=1e-7,
                          atol=1e-7 * (hi - lo) * np.abs(v).max())
                lq, wt = logtrap(x, v)
                mon.close(G.logtrapzd(**kw), lq, stage + ': log trapezoid quadrature', rtol=1e-9, atol=1e-7)
                pr = wt * np.exp(v - lq)
                m1, m2 = float(np.sum(pr * x)), float(np.sum(pr * x * x))
                sc = max(abs(lo), abs(hi))
                r1, r2 = G.logtrapzd_mom(1, **kw), G.logtrapzd_mom(2, **kw)
                mon.close(r1, [lq, m1], stage + ': first moment', rtol=1e-7, atol=1e-7 * (1 + sc))
                mon.close(r2, [lq, m1, m2], stage + ': second moment', rtol=1e-7, atol=1e-7 * (1 + sc + sc * sc))
                mon.close(G.logtrapzd_mom(**kw), lq, stage + ': no moments', rtol=1e-9, atol=1e-7)
                return x, v
            for step in range(int(rng.choice([1, 1, 1, 2, 3]))):
                if step:
                    # another function on the same grid object, of either kind
                    f, kind2 = gen_func(rng, lo, hi, n, log)
                    tup = bool(rng.random() < .3)
                    sel, kw = (1, dict(select=1)) if tup else (None, {})
                    mon.note(then=(kind2, tup))
                    G.firstpass(g, select=sel)
                    mon.count('grids used again')
                mon.check(len(G) == n, 'the base grid has the points asked for', n=len(G))
                x, v = points('base')
                check_peaks(mon, G.lml, x, v, rank.lower(), nmax, np.log(dyn), 'base')
                if rng.random() < .2:
                    continue
                rd = float(rng.choice([0, 0, 3., 100.])) or None
                mon.note(refine_dynrange=rd)
                nlast = n
                for again in range(1 + int(rng.random() < .2)):
                    G.refine(dynrange=rd)
                    peaks = [tuple(G.lml[k][1]) for k in range(len(G.lml))]
                    if rd and len(G.lml):
                        mon.check(all(G.lml[0][0] - G.lml[k][0] <= np.log(rd) + 1e-9 for k in range(len(G.lml))),
                                  'refinement can be limited in dynamic range')
                        want = [w for w in sorted(expected_peaks(x, v, rank.lower()), key=lambda t: -t[0])][:nmax]
                        near = [w for w in want if want[0][0] - w[0] < np.log(min(rd, dyn)) - 1e-6 * (1 + abs(w[0]))]
                        mon.check({w[1] for w in near} <= {p[0] for p in peaks} or len(near) < len(peaks),
                                  'refinement keeps the maxima in range', got=peaks, want=near)
                    x2, v2 = points('refined')
                    mon.check(len(x2) >= nlast, 'refinement does not lose points', before=nlast, after=len(x2))
                    nlast = len(x2)
                    # the neighbourhood of every listed maximum is sampled as promised
                    rpts = nsig * (sigpts - 1) + 1
                    base = (T(hi) - T(lo)) / (n - 1.)
                    for idx, A, mean, sig in peaks:
                        a, b = max(mean - nsig * sig, lo), min(mean + nsig * sig, hi)
                        if not b > a:
                            continue
                        ta, tb = T(a), T(b)
                        allow = max((tb - ta) / (rpts - 1.), (tb - ta + 2 * base) / (rpts - 1.) if
                                    5 * (tb - ta) / (rpts - 1.) <= base * (1 + 1e-9) else 0.)
                        t = T(x2)
                        j0, j1 = np.searchsorted(t, ta, 'right') - 1, np.searchsorted(t, tb, 'left')
                        gaps = np.diff(t[max(j0, 0):j1 + 1])
                        if len(gaps) > 2:
                            mon.check(gaps[1:-1].max() <= allow * (1 + 1e-6), 'the neighbourhood of a maximum is refined',
                                      gap=float(gaps[1:-1].max()), allowed=float(allow), peak=(mean, sig))
                        mon.count('refined windows')
                    if again:
                        mon.count('refined twice')
            mon.check(not outside, 'the function is never called outside the range', called=outside[:3])
            if len(G) > n:
                mon.count('refined grids')
                mon.count('log refined', int(log))
                mon.hit(lo, hi, n, kind, nmax, sigpts, nsig)
                mon.sample(points=len(G), peaks=peaks[:3])
            mon.seen('(function, grid)', kind + str(log))

    for i, rng in mon.cases('basic', 400, 4000):
        lo, hi, n, log = gen_range(rng)
        f, kind = gen_func(rng, lo, hi, n, log)
        nmax, rank = int(rng.integers(1, 6)), str(rng.choice(['peak', 'area']))
        ncol = int(rng.choice([0, 2, 3]))
        st = 'log' if log else 'linear'
        with mon.case('basic', i, lo=lo, hi=hi, n=n, stype=st, function=kind, nmax=nmax, rank=rank, columns=ncol):
            sel = int(rng.integers(ncol)) if ncol else None
            ints = bool(rng.random() < .15)
            mon.note(integers=ints)
            if ints:
                ff = f

                def f(x):
                    return int(round(4 * ff(x)))
            l1, l2 = LabeledMaxList(nmax), LabeledMaxList(nmax)
            g1, g2 = BasicGrid1D(lo, hi, n, st, lml=l1, rank=rank), BasicGrid1D(lo, hi, n, st, lml=l2, rank=rank)

            def one(x):
                return [f(x) if c == sel else (2 * f(x) if ints else .5 * f(x)) for c in range(ncol)] if ncol else f(x)
            g1.stepfunc(one, select=sel)
            g2.vecfunc(lambda xs: np.array([one(x) for x in xs]), select=sel)
            p1, p2 = [g1.point(k) for k in range(n)], [g2.point(k) for k in range(n)]
            mon.close([p[0] for p in p1], [p[0] for p in p2], 'stepped and vector abscissas', rtol=1e-12,
                      atol=1e-12 * (hi - lo))
            x = np.array([p[0] for p in p2])
            mon.close([x[0], x[-1]], [lo, hi], 'the grid ends are the ends of the range', rtol=1e-12, atol=1e-12 * (hi - lo))
            want = np.exp(np.linspace(np.log(lo), np.log(hi), n)) if log else np.linspace(lo, hi, n)
            mon.close(x, want, 'abscissas are equispaced', rtol=1e-9, atol=1e-9 * (hi - lo))
            v = np.array([(p[2][sel] if ncol else p[2]) for p in p2], float)
            mon.close([(p[2][sel] if ncol else p[2]) for p in p1], v, 'stepped and vector values', rtol=1e-6, atol=1e-6)
            check_peaks(mon, l2, x, v, rank, nmax, None, 'vector')
            mon.check(len(l1) == len(l2), 'stepped and vector evaluation list the same maxima', stepped=len(l1),
                      vector=len(l2)) if kind not in ('flat', 'plateau') else None
            kw = dict(select=sel) if ncol else {}
            for G in (g1, g2):
                mon.close(G.trapzd(**kw), trap(x, v), 'trapezoid rule', rtol=1e-7, atol=1e-7 * (hi - lo) * np.abs(v).max())
                mon.close(G.logtrapzd(**kw), logtrap(x, v)[0], 'log trapezoid rule', rtol=1e-9, atol=1e-7)
            if n > 3:
                a, b = sorted(rng.choice(n, 2, replace=False))
                s = g2.subgrid(x[a], x[b])
                mon.check(s.n == b - a + 1, 'a subgrid has its own points', n=s.n)
                mon.close([s.point(k)[0] for k in range(s.n)], x[a:b + 1], 'subgrid abscissas', rtol=1e-9)
                mon.check(np.array_equal(s.vals, g2.vals[a:b + 1]), 'subgrid values')
                mid = x[a] + .5 * (x[a + 1] - x[a])
                mon.raises(ValueError, lambda: g2.subgrid(mid, x[b]) if b > a + 1 else g2.subgrid(mid, hi + (hi - lo)),
                           'a subgrid must start on a grid point')
            if i % 8 == 0:
                fresh = BasicGrid1D(lo, hi, n, st)
                for bad, q in ((RuntimeError, lambda: fresh.trapzd()), (RuntimeError, lambda: fresh.logtrapzd()),
                               (RuntimeError, lambda: fresh.logtrapzd_mom(1)), (ValueError, lambda: g2.logtrapzd_mom(3, **kw)),
                               (ValueError, lambda: BasicGrid1D(lo, hi, 1, st)), (ValueError, lambda: BasicGrid1D(lo, hi, n, 'cubic')),
                               (ValueError, lambda: BasicGrid1D(lo, hi, n, st, rank='width')),
                               (ValueError, lambda: BasicGrid1D(-1., 2., n, 'log')), (ValueError, lambda: BasicGrid1D(0., 2., n, 'log')),
                               (ValueError, lambda: g2.trapzd(**({} if ncol else dict(select=0)))),
                               (ValueError, lambda: g1.logtrapzd(**({} if ncol else dict(select=0)))),
                               (ValueError, lambda: RefinedIntervalList1D(lo, lo, n)), (ValueError, lambda: RefinedIntervalList1D(lo, hi, 1)),
                               (RuntimeError, lambda: Grid1D(lo, hi, n, st).refine()),
                               (ValueError, lambda: RefinedIntervalList1D(lo, hi, n, st).update(hi + 1, hi + 2, 5))):
                    mon.raises(bad, q, 'requests that make no sense are refused')
                mon.close(g2.trapzd(**kw), trap(x, v), 'a refused request changes nothing', rtol=1e-7,
                          atol=1e-7 * (hi - lo) * np.abs(v).max())
            mon.hit('basic', lo, hi, n, kind)

    for i, rng in mon.cases('intervals', 700, 8000):
        lo, hi, n, log = gen_range(rng)
        n = max(n, 3)
        T = np.log if log else (lambda v: v)
        with mon.case('intervals', i, lo=lo, hi=hi, n=n, log=log):
            r = RefinedIntervalList1D(lo, hi, n, 'log' if log else 'lin')
            base = (T(hi) - T(lo)) / (n - 1.)
            hist = []
            prev = None
            for k in range(int(rng.integers(1, 8))):
                if rng.random() < .5:
                    tg = T(lo) + base * np.arange(-1, n + 1)
                    a, b = sorted(rng.choice(len(tg), 2, replace=False))
                    a, b = tg[a], tg[b]
                    if log:
                        a, b = np.exp(a), np.exp(b)
                    a, b = a * (1 + 2.3e-16 * rng.integers(-2, 3)), b * (1 + 2.3e-16 * rng.integers(-2, 3))
                else:
                    c = rng.uniform(lo, hi)
                    w = (hi - lo) * 10 ** rng.uniform(-3, -.2)
                    a, b = c - w, c + w
                a, b = float(a), float(b)
                if not (min(b, hi) - max(a, lo) > 1e-9 * (hi - lo)):
                    continue
                m = int(rng.choice([2, 5, 11, 41]))
                hist.append((a, b, m))
                mon.note(history=hist)
                r.update(a, b, m)
                mon.count('interval updates')
                L = [r[q] for q in range(r.nint)]
                mon.check(len(L) == len(r.ilist), 'interval count')
                mon.check(abs(L[0].lo - lo) <= 1e-12 * (hi - lo) and abs(L[-1].hi - hi) <= 1e-12 * (hi - lo),
                          'the intervals cover the base interval')
                for p, q in zip(L[:-1], L[1:]):
                    mon.check(abs(p.hi - q.lo) <= 1e-10 * (hi - lo), 'the intervals are contiguous', ends=[p.hi, q.lo])
                steps = [(T(q.hi) - T(q.lo)) / (q.n - 1.) for q in L]
                mon.check(all(q.n > 1 and q.hi > q.lo for q in L), 'no interval is empty')
                mon.check(all(s <= base * (1 + 1e-6) for s in steps), 'every interval is at least as dense as the base',
                          steps=steps, base=base)
                npts = sum(q.n - 1 for q in L) + 1
                mon.check(r.npts == npts, 'the point count matches the intervals', got=r.npts, want=npts)
                # point numbering
                cum = 0
                for q, iv in enumerate(L):
                    for j in {0, iv.n - 2, int(rng.integers(0, iv.n - 1))}:
                        qi, jj, ivl = r.nlocate(cum + j)
                        mon.check((qi, jj) == (q, j) and ivl is iv, 'point numbers lead to their interval',
                                  point=cum + j, got=(qi, jj), want=(q, j))
                    cum += iv.n - 1
                qi, jj, ivl = r.nlocate(npts - 1)
                mon.check((qi, jj) == (len(L) - 1, L[-1].n - 1), 'the last point')
                # location
                for xx in (lo, hi, float(rng.uniform(lo, hi)), L[-1].lo):
                    iv = r.locate(xx)
                    mon.check(iv.lo <= xx <= iv.hi, 'a location is found in its interval', x=xx, interval=[iv.lo, iv.hi])
                if rng.random() < .2:
                    w = (hi - lo) * float(rng.choice([1e-6, .01, 3.]))
                    for bad in (lambda: r.nlocate(npts), lambda: r.nlocate(-1), lambda: r.nlocate(npts + int(rng.integers(1, 50))),
                                lambda: r.locate(lo - w), lambda: r.locate(hi + w)):
                        mon.raises(ValueError, bad, 'places outside of the range are refused')
                # density in the window asked for
                aa, bb = T(max(a, lo)), T(min(b, hi))
                want = max((bb - aa) / (m - 1.), (bb - aa + 2 * base) / (m - 1.) if 5 * (bb - aa) / (m - 1.) <= base * (1 + 1e-9) else 0)
                for q, s in zip(L, steps):
                    if T(q.lo) < bb - 1e-9 * base and T(q.hi) > aa + 1e-9 * base:
                        mon.check(s <= max(want, 0) * (1 + 1e-6) or s <= base * (1 + 1e-6) and want >= base * (1 - 1e-6),
                                  'the window is at least as dense as asked for', step=s, want=want)
                # refinement never coarsens
                if prev is not None:
                    for (plo, phi, ps) in prev:
                        mid = .5 * (plo + phi)
                        for q, s in zip(L, steps):
                            if q.lo <= mid < q.hi:
                                mon.check(s <= ps * (1 + 1e-6), 'refinement never coarsens', before=ps, after=s)
                prev = [(q.lo, q.hi, s) for q, s in zip(L, steps)]
                mon.seen('interval list lengths', len(L))
            nb = r.nonbase()
            for q in nb:
                s = (T(q.hi) - T(q.lo)) / (q.n - 1.)
                mon.check(s <= base * (1 + 1e-9), 'refined intervals are finer')
            if hist:
                mon.hit('iv', lo, hi, n, hist)

    for i, rng in mon.cases('peakparams', 300, 3000):
        A, m, s = rng.normal() * 10, rng.normal() * 10, 10 ** rng.uniform(-2, 2)
        x = np.sort(m + s * rng.uniform(-2, 2, 3))
        al = (x[1] - x[0]) / (x[2] - x[0])
        with mon.case('peakparams', i, A=A, mean=m, sigma=s, x=x):
            if .05 < al < .95 and abs(al - .5 ** .5) > .02:
                y = A - .5 * ((x - m) / s) ** 2
                if abs(y[0] - y[1]) > 1e-3:
                    got = PeakParams(x, y)
                    mon.close(got, (A, m, s), 'a Gaussian is recovered from three points', rtol=1e-5,
                              atol=1e-5 * s + 1e-6)
                    mon.hit('pp', A, m, s)

    for i, rng in mon.cases('maxlist', 300, 3000):
        nmax = None if rng.random() < .3 else int(rng.integers(1, 7))
        dyn = None if rng.random() < .5 else float(10 ** rng.uniform(.2, 4))
        with mon.case('maxlist', i, nmax=nmax, dynrange=dyn):
            L = LabeledMaxList(nmax, dyn)
            allq = []
            for k in range(int(rng.integers(1, 40))):
                q = float(rng.normal() * 5) if rng.random() < .8 or not allq else allq[int(rng.integers(len(allq)))]
                allq.append(q)
                L.update(q, (k, q))
                want = sorted(allq, reverse=True)
                if dyn is not None:
                    want = [w for w in want if want[0] - w <= np.log(dyn)]
                want = want[:nmax]
                got = [L[j][0] for j in range(len(L))]
                mon.check(got == want, 'the list holds the greatest values, in order', got=got, want=want, all=allq)
                mon.check(all(L[j][1][1] == L[j][0] and allq[L[j][1][0]] == L[j][0] for j in range(len(L))),
                          'labels stay with their values')
                mon.check(len({L[j][1][0] for j in range(len(L))}) == len(L), 'nothing is listed twice')
            d2 = float(10 ** rng.uniform(.1, 2))
            before = [L[j][0] for j in range(len(L))]
            L.limitRange(d2)
            mon.check([L[j][0] for j in range(len(L))] == [w for w in before if before[0] - w <= np.log(d2)],
                      'the dynamic range can be limited afterwards')
            E = LabeledMaxList(3)
            E.limitRange(10.)
            n0 = len(L)
            last = L[n0 - 1]
            del L[0]
            mon.check(len(L) == n0 - 1 and (n0 == 1 or L[n0 - 2] == last), 'entries can be deleted')
            mon.hit('ml', allq)

"""C11: bracketing, line and direction-set minimisation."""
import numpy as np

RULE = ('random one-dimensional and multivariate functions with known minima, with barriers, ledges, noise and no minimum '
        'at all; every evaluation is recorded; non-trivial: a search that had to move from its start')
ASSUMPTIONS = ['functions return numbers, not NaN']
CASE_CPU = 30


def minimums(tier):
    return {'brackets': 1500, 'line searches': 1500, 'minimisations': 400, 'unbounded functions': 60, 'evaluations': 50000,
            'barriers': 100, 'repeated searches': 150, 'iteration limits': 50}


class Rec:
    def __init__(self, f, limit=200000):
        self.f, self.x, self.y, self.limit = f, [], [], limit

    def __call__(self, x):
        y = self.f(x)
        self.x.append(np.array(x, float).copy())
        self.y.append(y)
        if len(self.y) > self.limit:
            raise RuntimeError('evaluated more than %d times' % self.limit)
        return y


def line_family(rng):
    """f, where its minimum is, whether it has only one, name"""
    c = float(rng.normal() * 10 ** rng.uniform(-2, 2))
    s = float(10 ** rng.uniform(-1, 1.5))
    k = int(rng.integers(10))
    a = float(rng.normal() * 10 ** rng.uniform(-1, 2))
    t = lambda x: (x - c) / s
    if k == 0:
        return (lambda x: a + t(x) ** 2), c, s, True, 'parabola'
    if k == 1:
        return (lambda x: a + t(x) ** 4), c, s, True, 'quartic'
    if k == 2:
        return (lambda x: a + abs(t(x))), c, s, True, 'wedge'
    if k == 3:
        return (lambda x: a + np.cosh(min(max(t(x), -300), 300))), c, s, True, 'cosh'
    if k == 4:
        return (lambda x: a + np.log1p(t(x) ** 2)), c, s, True, 'log'
    if k == 5:
        return (lambda x: a + abs(t(x)) ** .5), c, s, True, 'cusp'
    if k == 6:
        return (lambda x: a - np.exp(-t(x) ** 2 / 2)), c, s, True, 'well'
    if k == 7:
        q = float(rng.uniform(.5, 3))
        return (lambda x: a + t(x) ** 2 + q * np.sin(5 * t(x))), None, s, False, 'many minima'
    if k == 8:
        w = float(rng.uniform(.3, 3))
        return (lambda x: a + t(x) ** 2 if abs(t(x)) < w else np.inf), c, s, True, 'barrier'
    sk = float(rng.uniform(1.5, 30))
    return (lambda x: a + (t(x) ** 2 if x > c else sk * t(x) ** 2)), c, s, True, 'skewed'


def run(mon):
    from inference.utils.nrmin import MinBracket, brent, linmin, powell, IterErr

    for i, rng in mon.cases('line', 2000, 100000):
        f, c, s, single, name = line_family(rng)
        x1 = float(rng.normal() * 10 ** rng.uniform(-2, 2))
        if c is not None and (rng.random() < .5 or name in ('well', 'barrier', 'cosh')):
            x1 = c + s * float(rng.normal())
        x2 = x1 + float(rng.choice([-1, 1])) * float(10 ** rng.uniform(-3, 1))
        if rng.random() < .08:
            x1 = int(round(x1))
            x2 = x1 + int(rng.choice([-3, -1, 1, 2]))
        with mon.case('line', i, family=name, x1=x1, x2=x2, at=c):
            g = Rec(f, 5000)
            if name in ('well', 'barrier') and min(f(x1), f(x2)) >= f(x1 + 1e6):
                continue                # starts on the plateau
            b = MinBracket(g, x1, x2)
            mon.check(b.x1 <= b.xm <= b.x2, 'a bracket is in order', bracket=(b.x1, b.xm, b.x2))
            mon.check(b.fm <= b.f1 and b.fm <= b.f2, 'the middle of a bracket is lowest', f=(b.f1, b.fm, b.f2))
            mon.check((f(b.x1), f(b.xm), f(b.x2)) == (b.f1, b.fm, b.f2), 'a bracket holds the function values')
            mon.check(b.fm <= min(f(x1), f(x2)), 'a bracket is not above the start')
            tol = 1e-12 * max(1, abs(b.x1), abs(b.x2))
            if single and name != 'barrier':
                mon.check(b.x1 - tol <= c <= b.x2 + tol, 'the minimum is in the bracket', bracket=(b.x1, b.xm, b.x2))
            mon.count('brackets')
            mon.count('evaluations', len(g.y))
            if b.x1 < b.xm < b.x2 and len(g.y) > 3:
                mon.hit(i, name)
            if name == 'barrier':
                mon.count('barriers')
            # line search
            rt = float(10 ** rng.uniform(-9, -1))
            h = Rec(f, 5000)
            limited = rng.random() < .1
            maxit = int(rng.integers(1, 12)) if limited else 200
            try:
                x, fx = brent(h, b, tol=rt, maxit=maxit) if rt < .08 or limited else brent(h, b)
                rt = rt if rt < .08 or limited else 1e-6
            except IterErr:
                mon.check(limited, 'a line search converges', bracket=(b.x1, b.xm, b.x2), tol=rt)
                mon.check(len(h.y) <= maxit + 1, 'the limit on iterations holds', evaluations=len(h.y), maxit=maxit)
                mon.count('iteration limits')
                continue
            mon.check(len(h.y) <= maxit + 1, 'the limit on iterations holds', evaluations=len(h.y), maxit=maxit)
            pad = 4 * (rt * max(abs(b.x1), abs(b.x2)) + 1e-10)
            mon.check(b.x1 <= x <= b.x2, 'the result is in the bracket', x=x)
            mon.check(all(b.x1 - pad <= u <= b.x2 + pad for u in h.x), 'evaluations are in the bracket')
            mon.check(fx == f(x), 'the value returned is that at the place returned', got=fx, want=f(x))
            mon.check(fx <= min(h.y) and fx <= b.fm, 'the result is the best point seen', got=fx, best=min(h.y))
            # nearby points are not lower by more than roundoff: a local minimum
            near = 3 * (rt * abs(x) + 1e-10)
            scale = max(abs(b.f1), abs(b.fm), abs(b.f2)) if np.isfinite(b.f1 + b.f2) else abs(b.fm) + 1
            if single and name != 'barrier':
                flat = (8 * np.finfo(float).eps * max(abs(fx), scale * 1e-3))
                lo = min(x, c)
                hi = max(x, c)
                ok = abs(x - c) <= near or fx - f(c) <= flat + 1e-13 * abs(fx)
                mon.check(ok, 'the minimum is within the tolerance', x=x, at=c, near=near, excess=fx - f(c))
            mon.count('line searches')
            mon.count('evaluations', len(h.y))
            mon.seen('families', name)
            if i % 400 == 0:
                mon.sample(bracket=(b.x1, b.xm, b.x2), x=x, evaluations=len(h.y))

    for i, rng in mon.cases('no minimum', 120, 2000):
        k = int(rng.integers(6))
        s = float(10 ** rng.uniform(-2, 2)) * float(rng.choice([-1, 1]))
        f = [lambda x: s * x, lambda x: np.exp(np.clip(-s * x, -700, 700)), lambda x: 3., lambda x: -abs(s * x) ** 1.5,
             lambda x: np.arctan(s * x), lambda x: -x * x * x * s][k]
        x1, d = float(rng.normal() * 10 ** rng.uniform(-2, 2)), float(10 ** rng.uniform(-3, 1))
        with mon.case('no minimum', i, kind=k, s=s, x1=x1, d=d):
            g = Rec(f, 20000)
            try:
                b = MinBracket(g, x1, x1 + d)
                mon.check(b.fm <= b.f1 and b.fm <= b.f2 and b.fm <= min(f(x1), f(x1 + d)), 'what is returned is a bracket',
                          f=(b.f1, b.fm, b.f2))
                mon.check((f(b.x1), f(b.xm), f(b.x2)) == (b.f1, b.fm, b.f2), 'a bracket holds the function values')
                mon.check(b.x1 <= b.xm <= b.x2, 'a bracket is in order')
                mon.check(np.all(np.isfinite([b.x1, b.xm, b.x2])), 'a bracket is finite', got=(b.x1, b.xm, b.x2))
                mon.check(k != 0, 'a straight line has no minimum', got=(b.x1, b.xm, b.x2))
            except (IterErr, OverflowError):
                mon.check(k != 2, 'a constant has a minimum')
            mon.count('unbounded functions')
            mon.count('evaluations', len(g.y))
            mon.hit('n', i)

    found = []              # directions may collapse, so that not every minimum is found
    for i, rng in mon.cases('powell', 600, 20000):
        n = int(rng.integers(1, 6)) if rng.random() < .9 else int(rng.integers(6, 11))
        cond = 10 ** rng.uniform(0, 3)
        q, _ = np.linalg.qr(rng.normal(size=(n, n)))
        A = q @ np.diag(cond ** rng.uniform(-.5, .5, n)) @ q.T
        c = rng.normal(size=n) * 10 ** rng.uniform(-1, 1)
        base = float(rng.choice([0., 1., -5., 300.]))
        kind = ['quadratic', 'quadratic', 'quartic', 'cosh', 'banana', 'barrier', 'wells'][int(rng.integers(7))]

        def f(x):
            d = np.asarray(x, float) - c
            r = float(d @ A @ d)
            if kind == 'quadratic':
                return base + r
            if kind == 'quartic':
                return base + r * r + r
            if kind == 'cosh':
                return base + float(np.sum(np.cosh(np.clip(d, -300, 300)))) - n
            if kind == 'banana':
                return base + float(np.sum(d ** 2) + 3 * np.sum((d[1:] - d[:-1] ** 2) ** 2))
            if kind == 'barrier':
                return base + r if np.all(d > -1.5) else np.inf
            return base + r + 2 * float(np.sum(np.sin(3 * d)))
        start = c + rng.normal(size=n) * float(10 ** rng.uniform(-1, .7))
        if kind == 'barrier':
            start = c + rng.uniform(-1, 3, n)
        if rng.random() < .1 and kind != 'barrier':
            start = np.round(start).astype(int)
        ftol = float(10 ** rng.uniform(-12, -3))
        given = rng.random() < .6
        drx = np.diag(10 ** rng.uniform(-2, 1, n)) if rng.random() < .6 else rng.normal(size=(n, n))
        if rng.random() < .3:
            drx = np.diag(rng.integers(1, 4, n))
        form = int(rng.integers(3))
        p0 = [start.tolist(), start.copy(), start.copy()][form]
        shuffle = bool(rng.random() < .5)
        with mon.case('powell', i, kind=kind, n=n, cond=cond, ftol=ftol, shuffle=shuffle, start=start, centre=c):
            g = Rec(f)
            keep = drx.copy()
            kw = dict(drxns=(drx if form else drx.tolist()) if given else None, ftol=ftol, shuffle=shuffle)
            limited = rng.random() < .1
            if limited:
                kw['maxit'] = int(rng.integers(1, 4))
            if not given:
                kw.pop('drxns')
            try:
                p, fp, it = powell(g, p0 if form else np.array(p0), **kw)
            except IterErr:
                # collapsed directions may stall on curved valleys; a limit that was set is a reason, too
                mon.count('iteration limits')
                mon.check(limited or kind in ('banana', 'wells', 'barrier', 'quartic', 'cosh') or n > 1,
                          'a one-dimensional quadratic converges')
                mon.count('gave up')
                if not limited and kind == 'quadratic' and ftol < 1e-6:
                    found.append(False)
                mon.check(np.array_equal(drx, keep) and np.array_equal(p0, start), "the caller's arrays are unchanged")
                continue
            mon.check(np.array_equal(drx, keep) and np.array_equal(p0, start), "the caller's arrays are unchanged")
            mon.check(np.shape(p) == (n,), 'shape of the result')
            mon.check(1 <= it <= kw.get('maxit', 200), 'the number of iterations is within the limit', iterations=it)
            mon.check(fp <= f(start), 'the result is no worse than the start', got=fp, start=f(start))
            mon.close(fp, f(p), 'the value returned is that at the place returned', rtol=1e-12, atol=1e-13)
            if kind in ('quadratic', 'quartic', 'cosh', 'banana') and not limited and ftol < 1e-6:
                excess, total = fp - base, f(start) - base
                bound = max(1e-2 * total if kind == 'banana' else 1e-3 * total, 100 * ftol * abs(base))
                found.append(excess <= bound)
                if n == 1 or cond < 4 and abs(base) < 10 and kind == 'quadratic':
                    mon.check(excess <= bound, 'the minimum is found', excess=excess, total=total, bound=bound)
            # the same again, with exactly the iterations it takes, and with fewer
            if rng.random() < .5:
                again = powell(f, p0 if form else np.array(p0), **dict(kw, maxit=it))
                mon.check(np.array_equal(again[0], p) and again[1] == fp and again[2] == it, 'the same search has the same '
                          'result within exactly its iterations', first=(fp, it), again=again[1:])
                if it > 1:
                    mon.raises(IterErr, lambda: powell(f, p0 if form else np.array(p0), **dict(kw, maxit=int(rng.integers(1, it)))),
                               'a search that reaches its limit says so')
                mon.count('repeated searches')
            if f(start) - fp > 1e-6:
                mon.hit('p', i)
            mon.count('minimisations')
            mon.count('evaluations', len(g.y))
            mon.seen('families', kind + str(n))
            # along one direction
            d = rng.normal(size=n)
            dk, sk = d.copy(), start.copy()
            gl = Rec(f)
            pt, step, fl = linmin(gl, start, d)
            mon.check(np.array_equal(d, dk) and np.array_equal(start, sk), "the caller's arrays are unchanged")
            mon.close(pt, start + step, 'the step leads to the point', rtol=1e-12, atol=1e-12)
            mon.check(abs(step @ step * (d @ d) - (step @ d) ** 2) <= 1e-9 * (step @ step) * (d @ d), 'the step is along the line')
            mon.check(fl <= f(start) and abs(fl - f(pt)) <= 1e-12 * abs(fl), 'a line search is no worse than its start')
            if kind == 'quadratic':
                t = -(d @ A @ (start - c)) / (d @ A @ d)
                best = f(start + t * d)
                mon.check(fl - best <= 1e-6 * (f(start) - best) + 1e-10 * abs(best) + 1e-7 * (d @ A @ d) * t * t + 1e-15,
                          'the minimum along the line is found', got=fl, best=best)

    if len(found) >= 20:
        with mon.case('powell batch', mon.shard):
            mon.check(np.mean(found) > .9, 'most minima are found', fraction=np.mean(found), of=len(found))

"""C06: adaptive cubature over boxes."""
import contextlib
import io

import numpy as np
from math import erf, sqrt, pi, exp

MODES = {'quick': ['plain'], 'thorough': ['plain', 'poison']}
RULE = ('polynomials of at most the degree of the basic rules, and smooth integrands with known integrals (products of '
        'Gaussians, exponentials, cosines and their sums), on random boxes of 2 to 6 dimensions, with random '
        'tolerances, budgets, rules and workspace; every evaluation point is recorded; non-trivial: the region was '
        'subdivided or the failure path taken')
ASSUMPTIONS = ['boxes have positive widths', 'integrands are smooth on the scale of the box, or polynomials: no adaptive '
               'rule can promise its error estimate for arbitrary integrands']
CASE_CPU = 120


def minimums(tier):
    return {'polynomials integrated': 250, 'accepted results': 250, 'refused results': 60, 'evaluations observed': 200000,
            'vector integrals': 250, 'repeated integrals': 500, '(rule, dimension)': 12}


def poly(rng, nd, degree):
    """random polynomial in nd variables, as (coefficient, exponents)"""
    terms = []
    for _ in range(int(rng.integers(1, 8))):
        e = np.zeros(nd, int)
        for _ in range(int(rng.integers(0, degree + 1)) if terms else degree):
            e[rng.integers(nd)] += 1
        terms.append((float(rng.normal()), e))
    return terms


def one_dim(rng, a, b):
    """A smooth 1-D factor on [a,b] with its integral; positive"""
    w = b - a
    k = int(rng.integers(4))
    if k == 0:
        c, s = rng.uniform(a - .2 * w, b + .2 * w), w * rng.uniform(.3, 2)
        return (lambda x: exp(-.5 * ((x - c) / s) ** 2)), s * sqrt(pi / 2) * (erf((b - c) / s / sqrt(2)) - erf((a - c) / s / sqrt(2)))
    if k == 1:
        r = rng.uniform(-3, 3) / w or 1. / w
        return (lambda x: exp(r * (x - a))), (exp(r * w) - 1) / r
    if k == 2:
        om, ph = rng.uniform(.5, 3) / w, rng.uniform(0, 6)
        return (lambda x: 1.5 + np.cos(om * (x - a) + ph)), 1.5 * w + (np.sin(om * w + ph) - np.sin(ph)) / om
    t = w * rng.uniform(.5, 2)
    return (lambda x: 1. / (1 + ((x - a) / t) ** 2)), t * np.arctan(w / t)


def box(rng, nd):
    lo = rng.normal(size=nd) * 10 ** rng.uniform(-1, 1)
    hi = lo + 10 ** rng.uniform(-1.5, 1.5, nd)
    return lo, hi


def poly_integral(terms, lo, hi):
    tot = 0.
    for c, e in terms:
        tot += c * np.prod([(h ** (k + 1) - l ** (k + 1)) / (k + 1.) for l, h, k in zip(lo, hi, e)])
    return float(tot)


def centred(terms, lo, hi):
    """the polynomial in coordinates that run over [-1,1], and its integral over the box"""
    mid, half = .5 * (lo + hi), .5 * (hi - lo)

    def f(x):
        u = (x - mid) / half
        return float(sum(c * np.prod(u ** e) for c, e in terms))
    want = sum(c * np.prod([0. if k % 2 else 2. / (k + 1.) for k in e]) for c, e in terms) * np.prod(half)
    scale = sum(abs(c) for c, e in terms) * np.prod(hi - lo) * (1 + np.max(np.abs(mid) / half))
    return f, float(want), float(scale)


def run(mon):
    from inference.integrate import adapt, adapt_vec
    from inference.integrate.adapt import adapt_sizes

    class Watch:
        def __init__(self, f, lo, hi):
            self.f, self.lo, self.hi, self.n, self.bad, self.pts = f, lo, hi, 0, None, set()
            self.eps = 1e-12 * (np.abs(lo) + np.abs(hi) + (hi - lo))

        def look(self, x):
            self.n += 1
            if self.n <= 2000:
                self.pts.add(x.tobytes())
            if self.bad is None and not (x.shape == self.lo.shape and np.all(x >= self.lo - self.eps) and
                                         np.all(x <= self.hi + self.eps)):
                self.bad = x.copy()

        def __call__(self, x):
            self.look(x)
            return self.f(x)

    # ---- scalar ------------------------------------------------------------------------------------------------
    for i, rng in mon.cases('scalar polynomial', 300, 6000):
        nd = int(rng.choice([2, 2, 3, 3, 4, 5, 6]))
        lo, hi = box(rng, nd)
        degree = int(rng.integers(0, 8))
        terms = poly(rng, nd, degree)
        with mon.case('scalar polynomial', i, lower=lo, upper=hi, degree=degree, terms=[(c, e.tolist()) for c, e in terms]):
            f, want, scale = centred(terms, lo, hi)
            off = float(rng.choice([0., 3.]) * sum(abs(c) for c, _ in terms))
            w = Watch(lambda x: f(x) + off, lo, hi)
            want += off * float(np.prod(hi - lo))
            l0, h0 = lo.copy(), hi.copy()
            tol = 10. ** -float(rng.integers(1, 11))
            try:
                r, err, npts = adapt(lambda x: w(x), lo, hi, tol)
            except RuntimeError:
                mon.check(not (off and degree <= 5), 'a polynomial the rules integrate exactly is accepted')
                mon.count('refused results')
            else:
                mon.close(r, want, 'polynomials of degree 7 are integrated exactly', rtol=0, atol=1e-10 * (scale + off * np.prod(hi - lo)))
                mon.check(err < tol, 'the error reported meets the request', err=err, tol=tol)
                mon.check(npts == w.n, 'the number of evaluations is reported', reported=npts, observed=w.n)
                mon.count('polynomials integrated')
                mon.count('accepted results')
                if npts > 3 * adapt_sizes(nd)[0]:
                    mon.count('polynomials subdivided')
            mon.check(w.bad is None, 'the integrand is evaluated in the box only', at=w.bad)
            mon.check(np.array_equal(lo, l0) and np.array_equal(hi, h0), 'the limits are left as they were')
            mon.count('evaluations observed', w.n)
            mon.seen('(rule, dimension)', 'adapt%d' % nd)
            mon.hit('sp', nd, degree, i)

    for i, rng in mon.cases('scalar smooth', 240, 5000):
        nd = int(rng.choice([2, 2, 2, 3, 3, 4]))
        lo, hi = box(rng, nd)
        parts = [one_dim(rng, a, b) for a, b in zip(lo, hi)]
        amp = float(10 ** rng.uniform(-8, 8)) * float(rng.choice([-1, 1, 1]))
        tol = 10. ** -float(rng.integers(2, 9))
        maxfac = int(rng.choice([1, 2, 5, 20, 100, 100, 300]))
        wrkfac = float(rng.choice([1, 1, 1, 2, .2]))
        with mon.case('scalar smooth', i, lower=lo, upper=hi, tol=tol, maxfac=maxfac, wrkfac=wrkfac, amplitude=amp):
            want = amp * float(np.prod([p[1] for p in parts]))

            def f(x):
                v = amp
                for p, t in zip(parts, x):
                    v *= p[0](t)
                return v
            w = Watch(f, lo, hi)
            minpts, maxpts, lenwrk = adapt_sizes(nd, maxfac)
            as_list = rng.random() < .5
            args = (lo.tolist(), hi.tolist()) if as_list else (lo, hi)
            refused = None
            try:
                r, err, npts = adapt(lambda x: w(x), args[0], args[1], tol, maxfac=maxfac, wrkfac=wrkfac)
            except RuntimeError as e:
                refused = str(e)
                mon.count('refused results')
            else:
                mon.check(err < tol, 'the error reported meets the request', err=err, tol=tol)
                # an error estimate of this kind can be fooled by a coincidence, so that single results get room
                mon.close(r, want, 'the integral of a smooth function is about right', rtol=max(300 * tol, 1e-9))
                mon.check(npts == w.n, 'the number of evaluations is reported', reported=npts, observed=w.n)
                mon.count('accepted results')
            mon.check(w.n <= maxpts * (1.15 if maxfac >= 100 else 1.5 if nd < 5 else 1.75), 'the budget of evaluations is kept, '
                      'up to a last subdivision', used=w.n, budget=maxpts)
            mon.check(w.bad is None, 'the integrand is evaluated in the box only', at=w.bad)
            if w.n > 2 * minpts:
                mon.hit('ss', i)
            if refused and 'maxfac' in refused and maxfac < 100:
                # more points never hurt: what the message advises works, or is refused for want of more
                try:
                    r2, err2, n2 = adapt(f, args[0], args[1], tol, maxfac=400, wrkfac=max(wrkfac, 1))
                except RuntimeError:
                    pass
                else:
                    mon.count('retries that succeeded')
                    mon.close(r2, want, 'a retry with a larger budget gives the integral', rtol=max(300 * tol, 1e-9))
                    mon.check(n2 >= w.n / 1.75, 'a larger budget is used', before=w.n, after=n2)
            # an exact change of scale changes nothing but the scale
            if refused is None and rng.random() < .4:
                k = 2. ** int(rng.integers(-6, 7))
                r2, err2, n2 = adapt(lambda x: k * f(x), args[0], args[1], tol, maxfac=maxfac, wrkfac=wrkfac)
                mon.check(n2 == npts, 'scaling by a power of two costs the same', before=npts, after=n2)
                mon.close(r2, k * r, 'scaling by a power of two scales the result', rtol=1e-13)
            mon.count('evaluations observed', w.n)
            mon.seen('(rule, dimension)', 'adapt%d' % nd)
            mon.sample(result=None if refused else r, want=want, evaluations=w.n)

    # error estimates, judged over batches of integrals
    for i, rng in mon.cases('batch', 16, 300):
        with mon.case('batch', i):
            R, T, V = [], [], []
            while len(R) < 80:
                nd = int(rng.choice([2, 2, 3]))
                lo, hi = box(rng, nd)
                parts = [one_dim(rng, a, b) for a, b in zip(lo, hi)]
                want = float(np.prod([p[1] for p in parts]))
                tol = 10. ** -float(rng.integers(2, 7))

                def f(x):
                    v = 1.
                    for p, t in zip(parts, x):
                        v *= p[0](t)
                    return v
                try:
                    r, e, n = adapt(f, lo, hi, tol)
                except RuntimeError:
                    continue
                R.append(abs(r / want - 1) / max(e, 1e-14))
                T.append(abs(r / want - 1) / tol)
                if len(R) % 2:
                    try:
                        with contextlib.redirect_stdout(io.StringIO()):
                            r, e, n = adapt_vec(1, lambda x, n, res: [f(x)], lo, hi, tol, key=int(rng.choice([0, 3, 4])))
                    except ValueError:
                        continue
                    V.append(abs(r[0] - want) / max(e[0], 1e-14 * want))
            q = np.quantile(R, [.5, .85]).tolist() + np.quantile(T, [.5, .85]).tolist() + np.quantile(V, [.5, .85]).tolist()
            mon.check(q[0] < .8 and q[1] < 10, 'scalar error estimates bound the errors, typically', ratios=q)
            mon.check(q[2] < .3 and q[3] < 1, 'scalar errors are within the tolerance, typically', ratios=q)
            mon.check(q[4] < .05 and q[5] < .5, 'vector error estimates bound the errors, typically', ratios=q)
            mon.count('accepted results', len(R) + len(V))
            mon.sample(error_ratios=q)
            mon.hit('batch', i)

    # ---- vectors -----------------------------------------------------------------------------------------------
    def keys_for(nd):
        return [0, 1, 3, 4] if nd == 2 else [0, 2, 3, 4] if nd == 3 else [0, 3, 4]
    DEG = {1: 13, 2: 11, 3: 9, 4: 7}

    def rule(key, nd):
        return key or {2: 1, 3: 2}.get(nd, 3)

    def vwatch(fs, lo, hi, style):
        w = Watch(None, lo, hi)

        def g(x, n, res):
            w.look(x)
            v = [f(x) for f in fs]
            if style == 'inplace':
                res[:] = v
                return res
            return np.array(v) if style == 'array' else v
        return w, g

    for i, rng in mon.cases('vector polynomial', 320, 6000):
        nd = int(rng.choice([2, 2, 3, 3, 4, 5, 6]))
        key = int(rng.choice(keys_for(nd)))
        lo, hi = box(rng, nd)
        nf = int(rng.integers(1, 5))
        deg = DEG[rule(key, nd)]
        P = [poly(rng, nd, int(rng.integers(0, deg + 1)) if rng.random() < .5 else deg) for _ in range(nf)]
        with mon.case('vector polynomial', i, lower=lo, upper=hi, key=key, functions=nf):
            C = [centred(t, lo, hi) for t in P]
            w, g = vwatch([c[0] for c in C], lo, hi, str(rng.choice(['inplace', 'array', 'list'])))
            out = io.StringIO()
            eps = 1e-6
            maxpts = int(rng.choice([20000, 100000]))
            absep = float(1e-8 * max(c[2] for c in C))
            with contextlib.redirect_stdout(out):
                try:
                    r, err, npts = adapt_vec(nf, g, lo, hi, eps, absep, key=key, maxpts=maxpts)
                except ValueError as e:
                    # the error estimate of a rule is about a rule of lower degree: it may want more points
                    mon.check('maxpts' in str(e) and w.n <= maxpts and w.n > .2 * maxpts,
                              'refused only for want of points', error=str(e), evaluations=w.n)
                    mon.count('refused results')
                    continue
            r = np.array(r)
            mon.check(r.shape == (nf,) and np.shape(err) == (nf,), 'one result per integrand')
            mon.close(r, [c[1] for c in C], 'polynomials of the degree of the rule are integrated exactly', rtol=0,
                      atol=1e-10 * max(c[2] for c in C))
            mon.check(np.all((err <= absep) | (err <= np.abs(r) * eps)), 'the errors reported meet the request', err=err)
            mon.check(npts == w.n, 'the number of evaluations is reported', reported=npts, observed=w.n)
            mon.check(w.n <= maxpts, 'the budget of evaluations is kept')
            mon.check(w.bad is None, 'the integrands are evaluated in the box only', at=w.bad)
            mon.count('vector integrals', nf)
            mon.count('polynomials integrated')
            mon.count('accepted results')
            mon.count('evaluations observed', w.n)
            mon.seen('(rule, dimension)', '%d:%d' % (rule(key, nd), nd))
            mon.hit('vp', nd, key, i)

    for i, rng in mon.cases('vector smooth', 240, 5000):
        nd = int(rng.choice([2, 2, 3, 4]))
        key = int(rng.choice(keys_for(nd)))
        lo, hi = box(rng, nd)
        nf = int(rng.integers(1, 4))
        tol = 10. ** -float(rng.integers(2, 8))
        maxpts = int(rng.choice([500, 2000, 20000]))
        minpts = int(rng.choice([0, 0, 300, 1500]))
        with mon.case('vector smooth', i, lower=lo, upper=hi, key=key, functions=nf, tol=tol, maxpts=maxpts, minpts=minpts):
            parts = [[one_dim(rng, a, b) for a, b in zip(lo, hi)] for _ in range(nf)]
            want = [float(np.prod([p[1] for p in q])) for q in parts]

            def mk(q):
                def f(x):
                    v = 1.
                    for p, t in zip(q, x):
                        v *= p[0](t)
                    return v
                return f
            w, g = vwatch([mk(q) for q in parts], lo, hi, str(rng.choice(['inplace', 'array'])))
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    r, err, npts = adapt_vec(nf, g, lo, hi, tol, key=key, maxpts=maxpts, minpts=minpts)
            except ValueError as e:
                mon.count('refused results')
                mon.check(w.n <= maxpts, 'the budget of evaluations is kept', used=w.n)
                if w.n == 0:
                    k = rule(key, nd)
                    num = {1: 65, 2: 127, 3: 1 + 8 * nd + 6 * nd * (nd - 1) + 4 * nd * (nd - 1) * (nd - 2) // 3 + 2 ** nd,
                           4: 1 + 6 * nd + 2 * nd * (nd - 1) + 2 ** nd}[k]
                    mon.check(maxpts < 3 * num or maxpts < minpts, 'refused at once only for an impossible budget',
                              error=str(e), rule=num)
            else:
                mon.check(npts == w.n and w.n <= maxpts, 'evaluations are reported and within the budget', reported=npts,
                          observed=w.n)
                mon.check(w.n >= minpts, 'at least the minimum of evaluations is made')
                r, err = np.array(r), np.array(err)
                mon.check(np.all(err <= np.abs(r) * tol * (1 + 1e-12)), 'the errors reported meet the request', err=err)
                mon.close(r, want, 'integrals of smooth functions are within a few times the tolerance', rtol=max(20 * tol, 1e-9))
                mon.check(np.all(np.abs(r - want) <= 1e-9 * np.abs(want) + 30 * err),
                          'integrals are within a few times the reported errors', got=r, want=want, err=err)
                mon.count('accepted results')
                mon.count('vector integrals', nf)
                if w.n > 400:
                    mon.hit('vs', i)
            mon.check(w.bad is None, 'the integrands are evaluated in the box only', at=w.bad)
            mon.count('evaluations observed', w.n)

    # ---- many dimensions, many functions, tight budgets ---------------------------------------------------------
    def size(key, nd):
        return {1: 65, 2: 127, 3: 1 + 8 * nd + 6 * nd * (nd - 1) + 4 * nd * (nd - 1) * (nd - 2) // 3 + 2 ** nd,
                4: 1 + 6 * nd + 2 * nd * (nd - 1) + 2 ** nd}[rule(key, nd)]

    for i, rng in mon.cases('large', 64, 1000):
        nd = int(rng.choice([2, 3, 5, 7, 8, 9, 10]))
        key = int(rng.choice(keys_for(nd)))
        lo, hi = box(rng, nd)
        nf = int(rng.choice([1, 2, 8, 40]))
        with mon.case('large', i, lower=lo, upper=hi, key=key, functions=nf):
            C = [centred(poly(rng, nd, int(rng.integers(0, 5))) + [(5., np.zeros(nd, int))], lo, hi) for _ in range(nf)]
            num = size(key, nd)
            maxpts = int(rng.choice([3 * num - 1, 3 * num, 3 * num + 1, 5 * num - 1, 5 * num, 7 * num]))
            minpts = int(rng.choice([0, 0, maxpts, maxpts + 1, num + 1]))
            mon.note(maxpts=maxpts, minpts=minpts)
            w, g = vwatch([c[0] for c in C], lo, hi, str(rng.choice(['inplace', 'array', 'list'])))
            scale = max(c[2] for c in C)
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    r, err, npts = adapt_vec(nf, g, lo, hi, 1e-5, 1e-9 * scale, key=key, maxpts=maxpts, minpts=minpts)
            except ValueError as e:
                mon.check(w.n == 0 or maxpts >= max(3 * num, minpts), 'an impossible budget is refused at once', used=w.n)
                mon.count('refused results')
            else:
                mon.check(maxpts >= max(3 * num, minpts), 'an impossible budget is refused')
                mon.check(npts == w.n, 'evaluations are reported', reported=npts, observed=w.n)
                mon.check(npts >= minpts or npts + 2 * num > maxpts, 'at least the minimum of evaluations is made')
                mon.close(r, [c[1] for c in C], 'polynomials in many dimensions', rtol=0, atol=1e-10 * scale)
                mon.check(np.shape(r) == np.shape(err) == (nf,), 'one result per integrand')
                mon.count('vector integrals', nf)
                mon.count('accepted results')
            mon.check(w.n <= maxpts, 'the budget of evaluations is kept', used=w.n)
            mon.check(w.bad is None, 'the integrands are evaluated in the box only', at=w.bad)
            mon.count('evaluations observed', w.n)
            # the scalar routine
            w = Watch(C[0][0], lo, hi)
            try:
                r, err, npts = adapt(lambda x: w(x), lo, hi, 1e-3)
            except RuntimeError:
                mon.count('refused results')
            else:
                mon.close(r, C[0][1], 'a polynomial in many dimensions', rtol=0, atol=1e-10 * C[0][2])
                mon.check(npts == w.n and err < 1e-3, 'the evaluations and error are reported', reported=npts, observed=w.n)
            mon.check(w.bad is None, 'the integrand is evaluated in the box only', at=w.bad)
            mon.count('evaluations observed', w.n)
            mon.hit('large', i)

    # ---- the same integral again, between others -----------------------------------------------------------------
    def problem(rng):
        nd = int(rng.choice([2, 2, 3]))
        lo, hi = box(rng, nd)
        q = [one_dim(rng, a, b) for a, b in zip(lo, hi)]
        tol = 10. ** -float(rng.integers(2, 7))
        c = float(10 ** rng.uniform(-3, 3))

        def f(x):
            v = c
            for p, t in zip(q, x):
                v *= p[0](t)
            return v
        if rng.random() < .5:
            mf, wf = int(rng.choice([2, 20, 100])), float(rng.choice([1, .3]))
            return lambda: adapt(f, lo, hi, tol, maxfac=mf, wrkfac=wf)
        nf, key = int(rng.integers(1, 4)), int(rng.choice(keys_for(nd)))
        mp = int(rng.choice([500, 5000]))
        return lambda: adapt_vec(nf, lambda x, n, res: [f(x) * (k + 1) for k in range(nf)], lo, hi, tol, key=key, maxpts=mp)

    def outcome(job):
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                r, e, n = job()
        except (RuntimeError, ValueError) as ex:
            return None, ('refused', type(ex).__name__, str(ex))
        return (r, e, n), (np.asarray(r).tobytes(), np.asarray(e).tobytes(), n)

    for i, rng in mon.cases('again', 48, 1000):
        with mon.case('again', i):
            jobs = [problem(rng) for _ in range(5)]
            first, kept = [None] * len(jobs), []
            for k in list(range(len(jobs))) + rng.integers(0, len(jobs), 8).tolist():
                raw, val = outcome(jobs[k])
                if first[k] is None:
                    first[k] = val
                mon.check(val == first[k], 'the same integral has the same result, whatever came before',
                          now=str(val)[:200], first=str(first[k])[:200])
                if raw is not None:
                    kept.append((raw, val))
                mon.count('repeated integrals')
            for raw, val in kept:
                mon.check((np.asarray(raw[0]).tobytes(), np.asarray(raw[1]).tobytes(), raw[2]) == val,
                          'results already returned do not change')
            mon.hit('again', i)

    # ---- refusals ----------------------------------------------------------------------------------------------
    for i, rng in mon.cases('refusals', 40, 200):
        with mon.case('refusals', i):
            nd = int(rng.choice([0, 1, 21, 25]))
            mon.raises((ValueError, OverflowError), lambda: adapt(lambda x: 1., [0.] * nd, [1.] * nd, 1e-3), 'adapt: impossible dimension')
            nv = int(rng.choice([0, 1, 16]))
            with contextlib.redirect_stdout(io.StringIO()):
                mon.raises(ValueError, lambda: adapt_vec(1, lambda x, n, r: [1.], [0.] * nv, [1.] * nv, 1e-3),
                           'adapt_vec: impossible dimension')
                bad = [(2, 2), (3, 1), (4, 1), (4, 2), (2, 5), (3, -1)][int(rng.integers(6))]
                mon.raises(ValueError, lambda: adapt_vec(1, lambda x, n, r: [1.], [0.] * bad[0], [1.] * bad[0], 1e-3, key=bad[1]),
                           'adapt_vec: a rule that does not exist', dim_key=bad)
                mon.raises(ValueError, lambda: adapt_vec(1, lambda x, n, r: [1.], [0., 0.], [1., 0.], 1e-3),
                           'adapt_vec: an empty region')
                mon.raises(ValueError, lambda: adapt_vec(1, lambda x, n, r: [1.], [0., 0.], [1., 1.], -1., -1.),
                           'adapt_vec: negative tolerances')

            class Boom(Exception):
                pass
            k, n = int(rng.integers(1, 60)), [0]

            def f(x, *a):
                n[0] += 1
                if n[0] >= k:
                    raise Boom
                return exp(-50 * float(np.sum((x - .3) ** 2)))
            mon.raises(Boom, lambda: adapt(f, [0., 0.], [1., 1.], 1e-12), 'an error in the integrand is passed on')
            n[0] = 0
            with contextlib.redirect_stdout(io.StringIO()):
                mon.raises(Boom, lambda: adapt_vec(1, lambda x, m, r: [f(x)], [0., 0.], [1., 1.], 1e-12),
                           'an error in a vector integrand is passed on')
            # and the next integral is right
            r = adapt(lambda x: x[0] * x[1] ** 2, [0., 0.], [1., 2.], 1e-6)
            mon.close(r[0], 4. / 3, 'the next integral after an error', rtol=1e-10)
            mon.hit('ref', i)

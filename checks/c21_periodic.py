"""C21: periodic point processes: Rayleigh statistics and piecewise-constant models, against sums over folded events."""
import math

import numpy as np
from scipy.special import gammaln, ive

RULE = ('random event times (any sign, size, order and number; duplicates; exactly on bin edges where arithmetic is exact), frequencies with '
        'and without derivatives, bins, quadratures; histories on several models at once, in which parameters are left out, bins and '
        'quadrature change, and calls are refused; non-trivial: a history that changes the bins and then leaves parameters out')
ASSUMPTIONS = ['at least one event', 'phases below 1e12 cycles', 'events not so close to a bin edge that rounding decides the bin, except '
               'where it is exact', 'the extensions are compiled here, since no package builds them (C with definitions of what Python 2 had)']
MODES = ['plain', 'asan', 'bounds']
LEGACY = [('sandbox/point/periodic', '_rayleigh', ['_rayleigh.c']),
          ('sandbox/point/periodic', '_pcperiodic', ['_pcperiodic.pyf', '_pcperiodic.f'])]
TWOPI = 2 * math.pi


def minimums(tier):
    return {'memory': 40, 'histories': 300, 'binnings': 2000, 'exact edges': 100, 'marginal exact': 300, 'marginal trapezoid': 200, 'rates': 300,
            'left out': 500, 'refusals': 300, 'rayleigh': 300, 'grids': 200, 'bessel': 1000, 'negative phases': 300}


L = np.longdouble
PI2 = L('6.28318530717958647692528676655900577')


class Fold:
    """Positions of the events in the cycle, for the frequency and its derivatives"""
    def __init__(self, t, w, wdot, wddot):
        t = np.asarray(t, float).astype(L)
        w, wdot, wddot = L(w), L(wdot), L(wddot)
        x = ((wddot * t / 6 + wdot / 2) * t + w) * t / PI2
        self.size = float(np.max(np.abs(w * t) + np.abs(wdot * t * t / 2) + np.abs(wddot * t ** 3 / 6), initial=0) / TWOPI)
        self.x = (x - np.floor(x)).astype(float)
        self.slack = 4e-16 * 6 * (self.size + 1) + 1e-15
        self.n = len(t)

    def bins(self, phi, m):
        """Counts in m bins, and how far the events stay from the edges"""
        y = np.mod(self.x + phi / TWOPI, 1.) * m
        k = np.floor(y).astype(int) % m
        edge = np.abs(y - np.rint(y)).min(initial=1) / m
        return np.bincount(k, minlength=m), float(edge)

    def limult(self, b):
        return float(np.sum(gammaln(b + 1.)) - gammaln(self.n + 1.))

    def chi(self, b):
        e = self.n / len(b)
        return float(np.sum((b - e) ** 2) / e)

    def pieces(self, m, also=()):
        """Intervals of phase over a bin width within which the counts stay, with the counts"""
        y = np.mod(self.x * m, 1.)
        cuts = [(1 - y) / m * TWOPI]
        for p in also:
            cuts.append((1 - np.mod(np.atleast_1d(p) / TWOPI * m, 1.)) / m * TWOPI)
        e = np.unique(np.concatenate([[0., TWOPI / m]] + cuts))
        e = e[(e >= 0) & (e <= TWOPI / m)]
        mid, wid = (e[1:] + e[:-1]) / 2, np.diff(e)
        keep = wid > 0
        return mid[keep], wid[keep], [self.bins(p, m)[0] for p in mid[keep]]


def lbessel(x):
    x = abs(x)
    return x + math.log(ive(0, x))


def run(mon):
    from point.periodic import periodic as P
    from point.periodic import _pcperiodic as gl

    def events(rng, n=None):
        n = int(rng.choice([1, 2, 3, int(rng.integers(4, 40)), int(rng.integers(40, 200))])) if n is None else n
        k = int(rng.integers(6))
        span = 10 ** float(rng.uniform(-2, 4))
        t = rng.uniform(0, span, n)
        if k == 0:
            t = t - span / 2
        elif k == 1:
            t = -t
        elif k == 2:
            t = t + 1000 * span
        elif k == 3:
            t = np.sort(t)
        elif k == 4:
            t[rng.integers(n, size=n // 2)] = t[0]
        elif k == 5:
            w = TWOPI / span * 7
            t = (np.arange(n) % 7 + .3 + .08 * rng.normal(size=n)) * span / 7
        return t, span

    def frequency(rng, span):
        w = TWOPI / span * float(rng.choice([1., rng.uniform(.1, 30), rng.uniform(1, 500)]))
        return w, w / span * float(rng.normal() * .02), w / span ** 2 * float(rng.normal() * .02)

    def close(got, want, what, tol=1e-8, **d):
        mon.check(np.ndim(got) == 0 and abs(float(got) - want) <= tol, what, got=got, want=want, tol=tol, **d)

    def ask(rng, s):
        """One question put to a model whose settings are s; returns False where rounding decides"""
        m, N = s['m'], s['model']
        kind = str(rng.choice(['lml', 'lml', 'chi', 'sml', 'avgchi', 'rate']))
        given = dict(w=s['w'], wdot=s['wdot'], wddot=s['wddot'])
        new = frequency(rng, s['span'])
        call = {}
        if s['w'] is None or rng.random() < .5:
            call['w'] = new[0]
        if rng.random() < .3:
            call['wdot'] = new[1] if rng.random() < .8 else 0.
        if rng.random() < .2:
            call['wddot'] = new[2] if rng.random() < .8 else 0.
        if rng.random() < .1 and s['w'] is not None:
            call['w'] = s['w']
        if len(call) < 3:
            mon.count('left out')
            if s['changed']:
                mon.hit(s['id'], kind, len(s['log']))
        before = dict(given)
        given.update(call)
        s.update(given)
        s['log'].append((kind, dict(call)))
        F = Fold(s['t'], s['w'], s['wdot'] or 0., s['wddot'] or 0.)
        neg = ((s['wddot'] or 0) * s['t'] / 6 + (s['wdot'] or 0) / 2) * s['t'] ** 2 + s['w'] * s['t'] < 0
        if neg.any():
            mon.count('negative phases')
        d = dict(bins=m, qpts=s['q'], w=s['w'], wdot=s['wdot'], wddot=s['wddot'], call=call, n=F.n)
        mon.note(question=kind, **{k: v for k, v in d.items()}, times=s['t'])
        slack = F.slack * 2
        if kind in ('lml', 'chi'):
            phi = float(rng.choice([0., rng.uniform(0, TWOPI), rng.uniform(0, TWOPI)]))
            b, edge = F.bins(phi, m)
            got = (N.lml_pw if kind == 'lml' else N.chi_pw)(phi, **call)
            if edge <= slack:
                mon.count('left to rounding')
                return
            mon.count('binnings')
            if kind == 'lml':
                close(got, F.limult(b), 'lml_pw: log inverse multiplicity of the counts', 1e-8 * (1 + F.n), phi=phi, **d)
                if s['bfac'] is not None:
                    close(N.logbfac, s['bfac'], 'logbfac: Ockham factor of the bins', 1e-8 * (1 + abs(s['bfac'])), **d)
            else:
                close(got, F.chi(b), 'chi_pw: chi squared of the counts', 1e-9 * (1 + F.chi(b)), phi=phi, **d)
            return
        if kind in ('sml', 'avgchi') and s['q'] is None:
            s.update(before)
            mon.raises(ValueError, lambda: (N.sml_w if kind == 'sml' else N.avgchi_w)(**call), 'a marginal likelihood without a quadrature is refused')
            # whether the parameters of a refused call stay is not said
            w = frequency(rng, s['span'])
            s.update(w=w[0], wdot=w[1], wddot=w[2])
            N.lml_pw(0., *w)
            return
        if kind in ('sml', 'avgchi'):
            r = (N.sml_w if kind == 'sml' else N.avgchi_w)(**call)
            if s['q'] == 0:
                mid, wid, bs = F.pieces(m)
                mon.count('marginal exact')
                step = TWOPI * m * 1.0e-10 * 1.1 + slack * TWOPI
                lost = (F.n + 2) * step * m
                lim = np.array([F.limult(b) for b in bs])
                chi = np.array([F.chi(b) for b in bs])
            else:
                wid = np.full(s['q'], TWOPI / m / (s['q'] - 1))
                wid[0] *= .5
                wid[-1] *= .5
                absc = np.arange(s['q']) * (TWOPI / m / (s['q'] - 1))
                lim, chi = [], []
                lost = 0.
                for p in absc:
                    b, edge = F.bins(p, m)
                    if edge <= slack + 1e-12:
                        mon.count('left to rounding')
                        return
                    lim.append(F.limult(b))
                    chi.append(F.chi(b))
                lim, chi = np.array(lim), np.array(chi)
                mon.count('marginal trapezoid')
            top = lim.max()
            want = m * float(np.sum(np.exp(lim - top) * wid))
            wchi = m * float(np.sum(chi * wid)) / TWOPI
            if kind == 'avgchi':
                close(r, wchi, 'avgchi_w: chi squared averaged over phase', lost * chi.max() / TWOPI + 1e-8 * (1 + wchi), **d)
            else:
                mon.check(N.offset is not None and math.isfinite(N.offset), 'an offset for the scale is set', got=N.offset)
                if top + N.offset > 700 or top + N.offset < -650:
                    mon.count('out of range')
                    return
                got = float(r) * math.exp(-N.offset - top) if abs(N.offset + top) < 600 else math.exp(math.log(float(r)) - N.offset - top)
                close(got, want, 'sml_w: likelihood integrated over phase, times the factor exp(offset)',
                      lost + 1e-7 * (1 + F.n * .01) * want, lost=lost, **d)
                close(N.avgchi, wchi, 'avgchi, with sml_w', lost * chi.max() / TWOPI + 1e-8 * (1 + wchi), **d)
            return
        # rates
        form = int(rng.integers(3))
        if form == 0:
            k = int(rng.integers(1, 40))
            ph = np.linspace(0., TWOPI, k)
            r = N.rate_est(k, **call)
            if not mon.check(isinstance(r, tuple) and len(r) == 3, 'rate_est with a number: phases, rates, sigmas', got=r):
                return
            mon.close(r[0], ph, 'rate_est: phases over one period', rtol=1e-12, atol=1e-12)
            r = r[1:]
        else:
            ph = np.sort(rng.uniform(0, TWOPI, int(rng.integers(1, 12))))
            if rng.random() < .3:
                ph[0] = 0.
            if rng.random() < .2:
                ph[-1] = TWOPI
            r = N.rate_est(ph.tolist() if form == 1 else ph, **call)
            if not mon.check(isinstance(r, tuple) and len(r) == 2, 'rate_est with phases: rates, sigmas', got=r):
                return
        mon.count('rates')
        mid, wid, bs = F.pieces(m, ph)
        lim = np.array([F.limult(b) for b in bs])
        if N.offset is None or not -650 < lim.max() + N.offset < 700:
            mon.count('out of range')
            return
        p = np.exp(lim - lim.max()) * wid
        norm = p.sum()
        step = TWOPI * m * 1.0e-10 * 1.1 + slack * TWOPI
        lost = (F.n + 4) * step * 3 / norm
        rate, var = np.zeros(len(ph)), np.zeros(len(ph))
        for a, x in enumerate(ph):
            j = np.floor(np.mod(x + mid, TWOPI) / TWOPI * m).astype(int) % m
            c = np.array([b[q] for b, q in zip(bs, j)], float)
            r1 = m * (c + 1) / (F.n + m)
            r2 = r1 * m * (c + 2) / (F.n + m + 1)
            rate[a] = np.sum(r1 * p) / norm
            var[a] = np.sum(r2 * p) / norm - rate[a] ** 2
        mon.check(np.shape(r[0]) == ph.shape == np.shape(r[1]), 'one rate and one sigma for each phase')
        mon.close(r[0], rate, 'rate_est: posterior mean of the rate', rtol=1e-6, atol=lost * m + 1e-9, **d)
        tolv = (lost * m * m * 3 + 1e-6 * (rate ** 2 + var))
        got = np.asarray(r[1], float)
        mon.check(bool(np.all(np.abs(got ** 2 - var) <= tolv + 1e-9)) and bool(np.all(got >= 0)),
                  'rate_est: posterior standard deviation of the rate', got=got, want=np.sqrt(np.maximum(var, 0)), **d)

    # -- histories on models -----------------------------------------------------------------------------------
    for i, rng in mon.cases('models', 1000, 20000):
        with mon.case('models', i):
            mon.count('histories')
            models = []
            for k in range(int(rng.integers(1, 4))):
                t, span = events(rng)
                q = [None, 0, 0, int(rng.integers(2, 40))][int(rng.integers(4))]
                m = None if rng.random() < .3 else int(rng.integers(1, 13))
                a = t.copy()
                N = P.PCModel(a, m, q) if rng.random() < .5 else P.PCModel(a, nbins=m, qpts=q)
                if rng.random() < .5:
                    a[:] = -7.7
                models.append(dict(model=N, t=t, span=span, m=m, q=q, w=None, wdot=0., wddot=0., log=[], changed=False, id=(i, k), bfac=None))

            def ockham(s):
                n, m = len(s['t']), s['m']
                s['bfac'] = float(gammaln(m) + n * math.log(m) + gammaln(n + 1.) - gammaln(n + m))

            for s in models:
                if s['m']:
                    ockham(s)
            for _ in range(int(rng.integers(3, 14))):
                s = models[int(rng.integers(len(models)))]
                N = s['model']
                k = float(rng.random())
                if s['m'] is None and k < .6:
                    k = .1
                if k < .15:
                    s['m'] = int(rng.integers(1, 13))
                    N.set_nbins(s['m'])
                    s['changed'] = True
                    ockham(s)
                    mon.note(did='bins %d' % s['m'])
                elif k < .25:
                    s['q'] = int(rng.choice([0, int(rng.integers(2, 40))]))
                    N.set_qpts(s['q'])
                    mon.note(did='qpts %d' % s['q'])
                elif k < .4:
                    mon.count('refusals')
                    c = int(rng.integers(4))
                    if c == 0:
                        mon.raises(ValueError, lambda: N.set_qpts(int(rng.choice([1, -1, -5]))), 'a negative number of points is refused')
                    elif c == 1:
                        mon.raises(ValueError, lambda: P.PCModel(np.zeros((3, 2)), 3, 0), 'data of two dimensions are refused')
                    elif c == 2:
                        mon.raises(ValueError, lambda: P.PCModel(np.zeros(3), 3, 1), 'one point is refused')
                    else:
                        mon.raises(ValueError, lambda: P.PCModel(np.zeros(3), 3, -2), 'a negative number of points is refused')
                elif s['m'] is None:
                    mon.count('refusals')
                    f = [lambda: N.lml_pw(0., 1.), lambda: N.chi_pw(0., 1.), lambda: N.sml_w(1.), lambda: N.rate_est(3, 1.)][int(rng.integers(4))]
                    mon.raises(ValueError, f, 'a model without bins refuses questions')
                elif s['w'] is None and rng.random() < .3:
                    mon.count('refusals')
                    f = [lambda: N.lml_pw(0.), lambda: N.chi_pw(0., wdot=0.), lambda: N.rate_est(3)][int(rng.integers(3))]
                    mon.raises(ValueError, f, 'questions without a frequency are refused')
                else:
                    ask(rng, s)

    # -- events exactly on the edges, and phases of any size, where arithmetic is exact ------------------------------
    for i, rng in mon.cases('edges', 400, 8000):
        with mon.case('edges', i):
            mon.count('exact edges')
            m = int(rng.choice([1, 2, 4, 8, 16]))
            n = int(rng.integers(1, 60))
            big = float(rng.choice([0, 0, 5, 1000, 2.0 ** 33]))
            k = rng.integers(-64, 64, n)
            ph = k / 32. + float(rng.choice([-1, 1])) * big
            shift = int(rng.integers(0, 32))
            if shift / 32. * TWOPI / TWOPI != shift / 32.:
                shift = 0
            b = np.zeros(m, np.int32)
            edges = np.zeros(m)
            gl.binbounds(edges)
            mon.close(edges, np.arange(m) / m, 'binbounds: lower edges of the bins', rtol=1e-15)
            got = gl.fbindata(ph, shift / 32. * TWOPI, edges, b)
            y = np.mod(k + shift, 32)
            want = np.bincount(y * m // 32, minlength=m)
            mon.check(np.array_equal(b, want), 'fbindata: events in half-open bins', got=b, want=want, k=k, shift=shift, m=m, big=big)
            nxt = (np.floor(y * m / 32.) + 1) / m - y / 32.
            mon.close(got, TWOPI * (nxt.min() + m * 1e-10), 'fbindata: smallest shift that moves an event', rtol=1e-9)
            N = P.PCModel(k / 32., m, 0)
            lim = float(np.sum(gammaln(np.bincount(np.mod(k, 32) * m // 32, minlength=m) + 1.)) - gammaln(n + 1.))
            close(N.lml_pw(0., TWOPI), lim, 'lml_pw with events on the edges', 1e-8 * (1 + n), k=k, m=m)
            tot = rng.integers(0, 200, int(rng.integers(1, 20))).astype(np.int32)
            N_, M_ = int(tot.sum()), len(tot)
            li = float(np.sum(gammaln(tot + 1.)) - gammaln(N_ + 1.))
            for f in (gl.limult, gl.lql_wp):
                close(f(N_, tot), li, 'log inverse multiplicity', 1e-8 * (1 + abs(li) + N_), counts=tot)
            close(gl.plimult(N_, tot), float(np.sum(gammaln(tot + 1.))), 'its part without the total', 1e-8 * (1 + abs(li) + N_), counts=tot)
            oc = float(gammaln(M_) + N_ * math.log(M_) + gammaln(N_ + 1.) - gammaln(N_ + M_))
            close(gl.ll_wpb(N_, tot), oc + li, 'likelihood for the number of bins too', 1e-8 * (1 + abs(li) + abs(oc) + N_) * 4, counts=tot)
            if N_:
                close(gl.chisqr(N_, tot), float(np.sum((tot - N_ / M_) ** 2) / (N_ / M_)), 'chi squared', 1e-9 * (1 + N_ * M_), counts=tot)
            x, f = 10 ** float(rng.uniform(-8, 3)), float(rng.uniform(-30, 30))
            close(gl.lodds(M_, N_, x, f), oc + math.log(x / TWOPI) - f, 'lodds: logarithm of the odds', 1e-6 * (1 + abs(oc)) + 1e-8 * N_, m=M_, n=N_)

    # -- Rayleigh ------------------------------------------------------------------------------------------------
    for i, rng in mon.cases('rayleigh', 600, 12000):
        with mon.case('rayleigh', i):
            t, span = events(rng)
            arg = [t, t.tolist(), np.repeat(t, 2)[::2], np.asfortranarray(t)][i % 4]
            w = frequency(rng, span)[0] * float(rng.choice([1, -1, 0]))
            th = L(w) * t.astype(L)
            S, C = float(np.sin(th).sum()), float(np.cos(th).sum())
            off = 1e-15 * (np.abs(w * t).sum() + len(t) * 4) * 4
            n = len(t)
            r = P.rayleigh(w, arg)
            mon.count('rayleigh')
            mon.note(w=w, times=t)
            mon.check(isinstance(r, tuple) and len(r) == 3 and abs(r[0] - S) <= off and abs(r[1] - C) <= off and
                      abs(r[2] - (S * S + C * C) / n) <= 2 * (abs(S) + abs(C) + off) * off / n + 1e-14 * n, 'rayleigh: sums and power', got=r,
                      want=(S, C, (S * S + C * C) / n))
            nw = int(rng.choice([1, 2, int(rng.integers(3, 200))]))
            lo, hi = frequency(rng, span)[0], frequency(rng, span)[0]
            if nw == 1:
                hi = lo
            ws, ps = P.rsgrid(nw, lo, hi, arg)
            mon.count('grids')
            want = np.linspace(lo, hi, nw)
            mon.close(ws, want, 'rsgrid: even grid of frequencies', rtol=1e-12 * 5, atol=1e-13 * abs(hi - lo))
            th = np.outer(want.astype(L), t.astype(L))
            A, B = np.sin(th).sum(axis=1).astype(float), np.cos(th).sum(axis=1).astype(float)
            off = 1e-15 * (np.abs(t).sum() * max(abs(lo), abs(hi)) * (2 + nw) + n * (4 + 4 * nw)) * 8
            mon.check(ps.shape == (nw,) and bool(np.all(np.abs(ps - (A * A + B * B) / n) <= 2 * (np.abs(A) + np.abs(B) + off) * off / n + 1e-13)),
                      'rsgrid: power at every frequency', got=ps, want=(A * A + B * B) / n, nw=nw, lo=lo, hi=hi)
            for _ in range(3):
                mon.count('bessel')
                k, nn, amp = float(10 ** rng.uniform(-3, 2.5)), int(rng.integers(1, 400)), 0.
                amp = float(rng.uniform(0, nn))
                if rng.random() < .2:
                    k = 3.75 + float(rng.choice([-1, 1])) * 10 ** float(rng.uniform(-12, -1))
                want = lbessel(k * amp) - nn * lbessel(k)
                close(P.lml_wk(k, nn, amp), want, 'lml_wk: logarithm of the marginal likelihood', 6e-7 * (nn + 1) + 1e-13 * abs(want), k=k, n=nn, S=amp)
            for bad, exc in ((lambda: P.rayleigh(w), TypeError), (lambda: P.rayleigh('x', t), TypeError), (lambda: P.rsgrid(3, lo, hi), TypeError),
                             (lambda: P.rayleigh(w, np.zeros((2, 2))), ValueError), (lambda: P.rsgrid(5, lo, hi, 'abc'), ValueError),
                             (lambda: P.rsgrid(-2, lo, hi, t), ValueError), (lambda: P.lml_wk(1., 'x', 2.), TypeError)):
                mon.count('refusals')
                mon.raises(exc, bad, 'a call that cannot be served raises')

    # -- memory in use does not grow with the number of statistics ------------------------------------------------------
    for i, rng in mon.cases('memory', 16 if mon.mode == 'plain' else 0, 200 if mon.mode == 'plain' else 0):
        with mon.case('memory', i):
            t = np.sort(np.round(rng.uniform(0, 5000, int(rng.integers(500, 1000)))))

            def failing(f, *args):
                try:
                    f(*args)
                except (ValueError, TypeError):
                    pass
            for what, f in (('rayleigh', lambda: P.rayleigh(1., t.astype(int))), ('rsgrid', lambda: P.rsgrid(400, 1., 2., t.astype(int))),
                            ('refused', lambda: failing(P.rsgrid, -2, 1., 2., t.astype(int)))):
                mon.gives_back(f, 'statistics give back the memory they use', statistics=what, n=len(t))
                mon.count('memory')

"""C24: sinusoids in uniformly sampled series: transforms against direct sums, fits against least squares."""
import contextlib
import io
import math
import os
import sys

import numpy as np

RULE = ('random series (any number of samples, interval, scale and form) transformed with any oversampling, and transformed again between '
        'analyses; harmonics of a frequency and sets of frequencies on the grid of the transform, interpolated in it or exact; non-trivial: '
        'two sinusoids or more')
ASSUMPTIONS = ['frequencies between zero and the Nyquist frequency whose least squares problem keeps eight digits at least',
               'more samples than amplitudes, by five or more where the noise is estimated',
               'the extension is compiled here, since no package builds it']
MODES = ['plain', 'asan']
LEGACY = [('sandbox/bha', 'bhacalc', ['bhacalc.c'])]


def minimums(tier):
    return {'memory': 40, 'transforms': 1500, 'frequency lookups': 3000, 'brackets': 800, 'harmonics': 500, 'grid': 300, 'interpolated': 150, 'exact': 300,
            'noise estimated': 400, 'after another transform': 300, 'interpolations': 300, 'refusals': 1000, 'compiled': 300, 'files': 100,
            'frequencies on the grid in the last two bins': 40}


class Truth:
    """Least squares with cosines and sines, from the basis functions themselves"""

    def __init__(self, n, gammas, proj=None, data=None):
        k = np.arange(n, dtype=np.longdouble)
        cols = []
        for g in gammas:
            a = np.longdouble(g) * k
            cols += [np.cos(a), np.sin(a)]
        self.B = np.array(cols).T
        self.G = np.array(self.B.T @ self.B, dtype=float)
        self.m = 2 * len(gammas)
        self.proj = np.array(self.B.T @ np.asarray(data, np.longdouble), dtype=float) if proj is None else np.asarray(proj, float)
        g = np.asarray(gammas, float)
        h = [abs(np.sin(g))]
        for i in range(len(g)):
            for j in range(i):
                h.append(np.atleast_1d([abs(math.sin((g[i] + g[j]) / 2)), abs(math.sin((g[i] - g[j]) / 2))]))
        self.mtol = 3e-15 * n * (1 + max(1, abs(g).max())) / max(np.concatenate(h).min(), 1e-300) + 1e-13 * n
        with np.errstate(all='ignore'):
            ok = np.isfinite(self.G).all()
            self.cond = float(np.linalg.cond(self.G)) if ok else math.inf
        self.tol = self.cond * (self.mtol / n) * 4 + 1e-12
        self.ok = self.cond < 1e8 and self.tol < 1e-4
        if self.ok:
            self.inv = np.linalg.inv(self.G)
            self.amps = np.linalg.solve(self.G, self.proj)
            self.suf = float(self.amps @ self.proj)
            self.L = np.linalg.cholesky(self.G)
            self.jac = float(np.exp(-.5 * np.linalg.slogdet(self.G)[1]))


def run(mon):
    import inference
    sys.path.insert(0, os.path.join(os.path.dirname(inference.__file__), '..', 'bha'))
    import bha
    import bhacalc
    import USTimeSeries as U

    @contextlib.contextmanager
    def quiet():
        with contextlib.redirect_stdout(io.StringIO()):
            yield

    def series(rng, least=12):
        n = int(rng.choice([least, least + 1, int(rng.integers(least, 40)), int(rng.integers(40, 300)), 64, 128]))
        dt = float(rng.choice([1., 1., 10 ** rng.uniform(-5, 4), 1 / 48000.]))
        t = np.arange(n)
        a = rng.normal(size=n) * float(rng.choice([0., .1, 1.]))
        for _ in range(int(rng.integers(1, 4))):
            g = float(rng.uniform(.02, 3.1))
            a = a + float(10 ** rng.uniform(-2, 1)) * np.cos(g * t - float(rng.uniform(0, 6.3)))
        a = a * 10 ** float(rng.choice([0, 0, rng.uniform(-4, 4)])) + float(rng.choice([0, 0, rng.normal()]))
        k = int(rng.integers(5))
        if k == 0:
            a = np.rint(a * 100).astype(int)
            if not a.any():
                a[1] = 3
        elif k == 1:
            w = np.full(2 * n, np.nan)
            w[::2] = a
            a = w[::2]
        elif k == 2:
            a.flags.writeable = False
        return a, dt, n

    def over(rng, n):
        r = rng.choice([1, 2, 4, 8, 3, float(rng.uniform(1, 6)), 1 + 1. / n])
        return float(r) if rng.random() < .5 and r != int(r) else (int(r) if r == int(r) else float(r))

    def transform(rng, ts, a, dt, n):
        o = over(rng, n)
        if ts.did_fft and rng.random() < .3:
            # a length next to the last one
            o = max((ts.n_fft + int(rng.choice([1, 1, -1])) + .01) / n, 1.)
        if o == 1 and rng.random() < .5:
            ts.transform()
        else:
            ts.transform(o)
        nf = int(n * o)
        mon.count('transforms')
        mon.seen('lengths', nf)
        mon.check(ts.n_fft == nf and ts.n_freq == nf // 2 + 1 and ts.did_fft is True, 'length of the transform', got=(ts.n_fft, ts.n_freq), want=nf)
        mon.check(len(ts.real) == len(ts.imag) == len(ts.fft) == nf // 2 + 1, 'number of transform values', n_fft=nf)
        want = np.fft.rfft(np.concatenate([np.asarray(a, float), np.zeros(nf - n)]))
        size = np.abs(np.asarray(a, float)).sum() + 1e-300
        mon.close(ts.real, want.real, 'transform: real part', atol=1e-13 * size * 10)
        mon.close(ts.imag, want.imag, 'transform: imaginary part', atol=1e-13 * size * 10)
        r = ts.f_range()
        mon.check(r[0] == nf // 2 + 1 and abs(r[1] * nf * dt - 1) < 1e-12 and abs(r[2] * dt * 2 - 1) < 1e-12, 'range of frequencies', got=r)
        mon.check(len(ts.f_vals) == nf, 'list of frequencies: length', got=len(ts.f_vals))
        k = np.arange(n)
        for _ in range(3):
            i = int(rng.integers(0, nf // 2 + 1))
            if rng.random() < .3:
                i = int(rng.choice([0, 1, nf // 2, max(nf // 2 - 1, 0)]))
            mon.count('frequency lookups')
            mon.check(abs(ts.f_vals[i] * nf * dt - i) <= 1e-11 * (i + 1e-3), 'list of frequencies: value', index=i, got=ts.f_vals[i])
            f = (i + float(rng.uniform(-.49, .49)) * (0 < i < nf // 2)) / (nf * dt)
            mon.check(ts.f_index(f) == i and isinstance(ts.f_index(f), int), 'index of the nearest frequency', f=f, want=i, got=ts.f_index(f))
            ff, re, im, p = ts.f_info(f)
            mon.check(abs(ff * nf * dt - i) <= 1e-11 * (i + 1e-3), 'nearest frequency', f=f, want=i, got=ff)
            ph = 2 * np.pi * ((i * k) % nf) / nf
            wr, wi = float(np.sum(a * np.cos(ph))), -float(np.sum(a * np.sin(ph)))
            tol = 1e-12 * size
            mon.check(abs(re - wr) <= tol and abs(im - wi) <= tol, 'transform at the nearest frequency', got=(re, im), want=(wr, wi), index=i, n_fft=nf)
            mon.check(abs(p - 2 * (wr ** 2 + wi ** 2)) <= 20 * tol * (abs(wr) + abs(wi) + tol), 'power at the nearest frequency', got=p)
            if nf // 2 + 1 >= 3:
                mon.count('brackets')
                fv, rv, iv = ts.bracket3(f)
                j = min(max(i - 1, 0), nf // 2 - 2)
                mon.check(len(fv) == len(rv) == len(iv) == 3, 'brackets: three values')
                mon.close(np.asarray(fv) * nf * dt, np.arange(j, j + 3), 'brackets: frequencies', atol=1e-9)
                mon.check(np.array_equal(rv, ts.real[j:j + 3]) and np.array_equal(iv, ts.imag[j:j + 3]), 'brackets: values at the frequencies', index=i)
        # between the grid points
        f = float(rng.uniform(0, .5)) / dt
        ph = 2 * np.pi * f * dt * k
        mon.check(abs(ts.realDTFT(f) - np.sum(np.cos(ph) * a)) <= 1e-11 * size * n ** .5, 'direct sum: real part', f=f)
        mon.check(abs(ts.imagDTFT(f) + np.sum(np.sin(ph) * a)) <= 1e-11 * size * n ** .5, 'direct sum: imaginary part', f=f)
        if rng.random() < .15:
            mon.count('files')
            s = io.StringIO()
            with np.errstate(divide='ignore'):
                ts.write_fft(s)
            lines = s.getvalue().splitlines()
            mon.check(len(lines) == nf // 2 + 1, 'file: one line for each frequency', got=len(lines))
            for i, line in enumerate(lines):
                v = [float(q) for q in line.split()]
                mon.check(len(v) == 4 and abs(v[0] - i / (nf * dt)) <= 5.1e-5 + 1e-9 * v[0] and abs(v[1] - ts.real[i]) <= 6e-4 * abs(ts.real[i]) + 1e-300
                          and abs(v[2] - ts.imag[i]) <= 6e-4 * abs(ts.imag[i]) + 1e-300, 'file: a line', line=line, index=i)
                w = 2 * (ts.real[i] ** 2 + ts.imag[i] ** 2)
                if w > 1e-20 * size ** 2:
                    mon.check(abs(v[3] - 10 * math.log10(w)) <= 6e-4 * abs(v[3]) + 1e-4, 'file: decibels', line=line, index=i, want=10 * math.log10(w))
        return nf

    def compare(m, T, what, fa, var):
        """What an analysis reports against direct least squares"""
        nm, n, dsqr, level = T.m, len(fa), float(np.sum(fa ** 2)), float(np.abs(fa).mean()) * (1 + .1 * len(fa) ** .5)
        mon.check(m.metric.shape == (nm, nm) and np.abs(m.metric - T.G).max() <= T.mtol, what + ': metric', got=m.metric, want=T.G)
        mon.check(np.abs(m.L - T.L).max() <= T.tol * math.sqrt(n) and np.array_equal(np.triu(m.L, 1), np.zeros((nm, nm))), what + ': factor of the metric',
                  got=m.L, want=T.L)
        mon.check(abs(m.jac / T.jac - 1) <= T.tol * nm, what + ': Jacobian', got=m.jac, want=T.jac)
        big = np.abs(T.amps).max() + np.abs(T.proj).max() / n + level
        mon.check(np.abs(m.amps - T.amps).max() <= T.tol * big * nm, what + ': amplitudes of cosines and sines', got=m.amps, want=T.amps)
        mon.check(abs(m.suf - T.suf) <= T.tol * nm * big * (np.abs(T.proj).max() + level), what + ': sufficient statistic', got=m.suf, want=T.suf)
        A = np.hypot(T.amps[0::2], T.amps[1::2])
        mon.check(np.abs(m.amplitudes() - A).max() <= T.tol * big * nm, what + ': amplitudes', got=m.amplitudes(), want=A)
        slack = 0.
        if var is None:
            dof = n - nm
            var = (dsqr - T.suf) / (dof - 2.)
            slack = T.tol * nm * nm * (big * (np.abs(T.proj).max() + level) + dsqr) / (dof - 2.)
            if not var > 1e3 * slack:
                mon.count('left to rounding')
                return
            mon.count('noise estimated')
            mon.check(abs(m.varest - var) <= slack, what + ': noise variance', got=m.varest, want=var)
            mon.check(abs(m.varerr - var * math.sqrt(2 / (dof - 4.))) <= slack * 3, what + ': uncertainty of the noise variance', got=m.varerr)
            s, ds = m.noiseEst()
            mon.check(abs(s ** 2 - var) <= slack * 2, what + ': noise level', got=s, want=math.sqrt(var))
            mon.check(abs(ds / s - .5 * math.sqrt(2 / (dof - 4.))) <= 1e-9, what + ': uncertainty of the noise level', got=ds / s)
        C = T.inv * var
        rt = T.tol * nm + slack / var if var else T.tol * nm
        mon.check(np.abs(m.covar() - C).max() <= 2 * rt * np.abs(C).max(), what + ': covariances', got=m.covar(), want=C)
        sig = m.sigmas()
        for i in range(nm // 2):
            if A[i] > 1e-6 * big and T.tol * big * nm < 1e-3 * A[i]:
                u = T.amps[2 * i:2 * i + 2] / A[i]
                v = float(u @ C[2 * i:2 * i + 2, 2 * i:2 * i + 2] @ u)
                mon.check(abs(sig[i] ** 2 - v) <= (4 * rt + 8 * T.tol * big * nm / A[i]) * np.abs(C).max(), what + ': uncertainties of the amplitudes', which=i,
                          got=float(sig[i]), want=math.sqrt(max(v, 0)))

    def frozen(m):
        return [np.array(v, copy=True) for v in (m.amplitudes(), m.amps, m.metric, m.L, m.suf, m.jac)]

    def held(m, was, what):
        mon.check(all(np.array_equal(x, y) for x, y in zip(was, frozen(m))), what)

    def refuse(rng, ts, a, dt, n):
        fresh = U.USTimeSeries(a, dt)
        for f in (fresh.f_range, lambda: fresh.f_index(.1 / dt), lambda: fresh.f_info(.1 / dt), lambda: fresh.write_fft(io.StringIO())):
            mon.count('refusals')
            mon.raises(RuntimeError, f, 'refused: not transformed yet')
        for f in (lambda: bha.Harmonics(1, fresh, 1.), lambda: bha.Multiplet(fresh)):
            mon.count('refusals')
            mon.raises(ValueError, f, 'refused: analysis of a series not transformed')
        h, m = bha.Harmonics(2, ts, 1.), bha.Multiplet(ts)
        for f in (h.amplitudes, h.covar, h.sigmas, m.amplitudes, m.covar, m.sigmas, m.noiseEst):
            mon.count('refusals')
            mon.raises(RuntimeError, f, 'refused: results before an analysis')
        for f in (lambda: ts.transform(float(rng.uniform(.1, .99))), lambda: ts.transform(0), lambda: U.USTimeSeries(a, dt, float(rng.uniform(.1, 3)))):
            mon.count('refusals')
            mon.raises(ValueError, f, 'refused: oversampling or start')
        mon.raises(NotImplementedError, lambda: U.USTimeSeries(np.ones((3, 2)), dt), 'refused: more than one dimension')
        f = float(rng.uniform(.05, .4)) / dt
        for ex in (True, False):
            for bad in ([0.], [f, 0.], [f, f]):
                # (the sums that a zero frequency difference divides by vanish)
                mm = bha.Multiplet(ts, exact=ex)
                mon.count('refusals')
                with quiet(), np.errstate(all='ignore'):
                    mon.raises(ValueError, lambda: mm.analyze(bad), 'refused: frequencies that cannot be told apart', frequencies=bad, exact=ex)
        x = rng.normal(size=6)
        for g in (lambda: bhacalc.harmonicAnalysis(2, n, .3, x), lambda: bhacalc.harmonicAnalysis(4, n, .3, x),
                  lambda: bhacalc.multipletAnalysis(n, np.array([.3, .7]), x), lambda: bhacalc.multipletAnalysis(n, np.array([.3, .7, 1., 2.]), x),
                  lambda: bhacalc.multipletAnalysis(n, np.array([.3, .7, 1.]), x[:5]),
                  lambda: bhacalc.multipletAnalysis(n, np.ones((2, 2)), x), lambda: bhacalc.harmonicAnalysis(3, n, .3, x.reshape(2, 3)),
                  lambda: bhacalc.covar(x)):
            mon.count('refusals')
            mon.raises(ValueError, g, 'refused: shapes that do not go together')

    def lattice(rng, nf, n, count):
        """Frequencies on the grid, told apart"""
        gap = max(1, int(math.ceil(.8 * nf / n)))
        hi = nf // 2 - gap
        out = []
        for _ in range(50):
            if len(out) == count or hi <= gap:
                break
            i = int(rng.integers(gap, hi + 1))
            if rng.random() < .1:
                i = hi
            if all(abs(i - j) >= gap for j in out):
                out.append(i)
        return out

    for i, rng in mon.cases('histories', 500, 12000):
        with mon.case('histories', i), np.errstate(divide='ignore'):
            a, dt, n = series(rng)
            keep = np.array(a, copy=True)
            mon.note(samples=a, dt=dt)
            ts = U.USTimeSeries(a, dt) if rng.random() < .7 else U.USTimeSeries(a, dt, rng.choice([None, 0]))
            mon.check(ts.n == n and len(ts) == n and ts.did_fft is False, 'a series')
            nf = transform(rng, ts, a, dt, n)
            fa = np.asarray(a, float)
            dsqr = float(np.sum(fa ** 2))
            sigma = float(10 ** rng.uniform(-2, 2))
            nh = int(rng.integers(1, 4))
            H = bha.Harmonics(nh, ts, sigma)
            kinds = ['grid', 'exact', 'interpolated']
            known = [sigma if rng.random() < .4 else None for _ in kinds]
            forms = [dict(), dict(exact=1), dict(interp=True)]
            M = [bha.Multiplet(ts, s, **d) for s, d in zip(known, forms)]
            others = []
            steps = int(rng.integers(3, 8))
            for step in range(steps):
                k = int(rng.integers(5))
                df = 1 / (nf * dt)
                was = [(m, frozen(m)) for m in others]
                now = None
                if k == 4:
                    nf = transform(rng, ts, a, dt, n)
                    mon.count('after another transform')
                elif k == 3:
                    top = nf // (2 * nh)
                    if top < 2:
                        continue
                    b = int(rng.integers(1, top + 1))
                    T = Truth(n, [2 * np.pi * b * (q + 1) / nf for q in range(nh)], data=fa)
                    if not T.ok or 2 * nh * b >= nf:
                        continue
                    f = (b + float(rng.uniform(-.4, .4))) * df
                    mon.count('harmonics')
                    mon.note(kind='harmonics', f=f, nharm=nh, n_fft=nf)
                    with quiet():
                        H.analyze(f)
                    mon.check(abs(H.f / df - b) <= 1e-9 * b, 'harmonics: the frequency used', got=H.f, want=b * df)
                    mon.close(H.prjxns, T.proj, 'harmonics: projections', atol=1e-11 * np.abs(fa).sum())
                    compare(H, T, 'harmonics', fa, sigma ** 2)
                    now = H
                    if nh > 1:
                        mon.hit(i, step)
                else:
                    m, kind = M[k], kinds[k]
                    count = int(rng.choice([1, 2, 2, 3, 4]))
                    at = lattice(rng, nf, n, count)
                    if not at or n - 2 * len(at) < 5:
                        continue
                    if kind == 'grid':
                        off = rng.uniform(-.4, .4, len(at))
                    else:
                        off = rng.uniform(-.5, .5, len(at)) * (rng.random() < .9)
                    f = [float(v) for v in (np.array(at) + off) * df]
                    mon.note(kind=kind, frequencies=f, n_fft=nf)
                    used = np.array(at) / (nf * dt) if kind == 'grid' else np.array(f)
                    proj = None
                    if kind == 'interpolated':
                        proj = []
                        spec = np.fft.rfft(np.concatenate([fa, np.zeros(nf - n)]))
                        for v in f:
                            j = min(max(int(np.round(v / df)) - 1, 0), nf // 2 - 2)
                            x = v / df - j
                            w = np.array([(x - 1) * (x - 2) / 2, -x * (x - 2), x * (x - 1) / 2])
                            if not -1e-9 <= x <= 2 + 1e-9:
                                proj = None
                                break
                            proj += [float(w @ spec[j:j + 3].real), -float(w @ spec[j:j + 3].imag)]
                        if proj is None:
                            continue
                    T = Truth(n, 2 * np.pi * used * dt, proj=proj, data=fa)
                    if not T.ok:
                        continue
                    mon.count(kind)
                    if max(at) >= nf // 2 - 2:
                        mon.count('frequencies on the grid in the last two bins')
                    if len(at) > 1:
                        mon.hit(i, step)
                    arg = f if rng.random() < .4 else (tuple(f) if rng.random() < .5 else np.array(f))
                    was_f = np.array(arg, copy=True)
                    with quiet():
                        m.analyze(arg)
                    mon.check(np.array_equal(was_f, arg), kind + ': the frequencies given are left as they are', got=arg)
                    mon.close(m.flist, used, kind + ': the frequencies used', rtol=1e-10)
                    mon.close(m.prjxns, T.proj, kind + ': projections', atol=1e-11 * np.abs(fa).sum() * (1 + (kind == 'exact') * n ** .5 * .1))
                    if kind != 'interpolated':
                        compare(m, T, kind, fa, known[k] ** 2 if known[k] else None)
                    else:
                        # projections that no samples have need not leave a positive remainder
                        v = (dsqr - T.suf) / (n - T.m - 2.)
                        if known[k] or v > 1e-3 * dsqr / n:
                            compare(m, T, kind, fa, known[k] ** 2 if known[k] else None)
                    now = m
                for m, w in was:
                    if m is not now:
                        held(m, w, 'an analysis is untouched by others and by another transform')
                if now is not None and not any(m is now for m in others):
                    others.append(now)
            mon.check(np.array_equal(keep, a, equal_nan=True), 'the samples are left as they are')
            if i % 8 == 0:
                refuse(rng, ts, a, dt, n)

    # -- memory in use does not grow with the number of analyses ------------------------------------------------------
    for i, rng in mon.cases('memory', 16 if mon.mode == 'plain' else 0, 200 if mon.mode == 'plain' else 0):
        with mon.case('memory', i):
            ns, n = int(rng.integers(10, 16)), int(rng.integers(200, 400))
            g = np.linspace(.3, 2.8, ns)
            p = np.round(rng.normal(size=2 * ns) * 9)
            L = np.asfortranarray(bhacalc.multipletAnalysis(n, g, p)[1])
            many = list(range(1000))

            def failing(f, *args):
                try:
                    f(*args)
                except (ValueError, TypeError):
                    pass
            for what, f in (('frequencies', lambda: bhacalc.multipletAnalysis(n, g.tolist(), p.tolist())),
                            ('harmonics', lambda: bhacalc.harmonicAnalysis(ns, n, .2, p.tolist())),
                            ('covariances', lambda: bhacalc.covar(L)), ('refused', lambda: failing(bhacalc.multipletAnalysis, n, many, many)),
                            ('harmonics refused', lambda: failing(bhacalc.harmonicAnalysis, ns, n, .2, many)),
                            ('degenerate', lambda: failing(bhacalc.multipletAnalysis, n, 0 * g, p))):
                mon.gives_back(f, 'analyses give back the memory they use', analyses=what, n=n, frequencies=ns)
                mon.count('memory')

    for i, rng in mon.cases('compiled', 500, 10000):
        with mon.case('compiled', i):
            n = int(rng.integers(8, 200))
            ns = int(rng.integers(1, 5))
            g = np.sort(rng.uniform(.3, 2.8, ns))
            if rng.random() < .5:
                g = g[rng.permutation(ns)]
            p = rng.normal(size=2 * ns) * 10 ** float(rng.uniform(-3, 3))
            same = bool(rng.random() < .4)
            if same:
                g = float(rng.uniform(.1, 3. / ns)) * np.arange(1, ns + 1)
            T = Truth(n, g, proj=p)
            if not T.ok:
                continue
            mon.note(n=n, gammas=g, projections=p)
            mon.count('compiled')
            w = np.full(4 * ns, np.nan)
            w[::2] = p
            arg = [p, p.tolist(), w[::2], tuple(p)][int(rng.integers(4))]
            refs = sys.getrefcount(g), sys.getrefcount(arg)
            r = bhacalc.harmonicAnalysis(ns, n, float(g[0]), arg) if same else bhacalc.multipletAnalysis(n, g if rng.random() < .5 else g.tolist(), arg)
            mon.check((sys.getrefcount(g), sys.getrefcount(arg)) == refs, 'compiled: the arguments are let go', before=refs,
                      after=(sys.getrefcount(g), sys.getrefcount(arg)))
            if rng.random() < .2:
                refs = sys.getrefcount(g), sys.getrefcount(p)
                mon.raises(ValueError, lambda: bhacalc.multipletAnalysis(n, g, p[:-1]), 'compiled: shapes')
                mon.raises(ValueError, lambda: bhacalc.multipletAnalysis(n, 0 * g, p), 'compiled: frequencies of zero')
                mon.check((sys.getrefcount(g), sys.getrefcount(p)) == refs, 'compiled: the arguments are let go after a failure', before=refs)
            mon.check(len(r) == 5, 'five results')
            G, L, rdet, amps, suf = r
            big = np.abs(T.amps).max() + np.abs(p).max() / n
            mon.check(np.abs(G - T.G).max() <= T.mtol, 'compiled: metric', got=G, want=T.G)
            mon.check(np.abs(L - T.L).max() <= T.tol * math.sqrt(n) and np.array_equal(np.triu(L, 1), 0 * L), 'compiled: factor', got=L, want=T.L)
            mon.check(abs(rdet * T.jac - 1) <= T.tol * 2 * ns, 'compiled: square root of the determinant', got=rdet, want=1 / T.jac)
            mon.check(np.abs(amps - T.amps).max() <= T.tol * big * 2 * ns, 'compiled: amplitudes', got=amps, want=T.amps)
            mon.check(abs(suf - T.suf) <= T.tol * big * 2 * ns * np.abs(p).max(), 'compiled: sufficient statistic', got=suf, want=T.suf)
            keep = L.copy()
            C = bhacalc.covar(L)
            mon.check(np.abs(C - T.inv).max() <= T.tol * np.abs(T.inv).max() * 2 * ns, 'compiled: covariances', got=C, want=T.inv)
            mon.check(np.array_equal(keep, L), 'compiled: the factor is left as it is')
            # quadratic interpolation
            mon.count('interpolations')
            xs = np.sort(rng.uniform(-3, 3, 3)) * 10 ** float(rng.uniform(-2, 2))
            if min(np.diff(xs)) > 1e-3 * (xs[2] - xs[0]):
                c = rng.normal(size=3)
                s = xs[2] - xs[0]
                q = lambda x: c[0] + c[1] * (x - xs[0]) / s + c[2] * ((x - xs[0]) / s) ** 2
                for x in (float(rng.uniform(xs[0], xs[2])), xs[0], xs[1], xs[2]):
                    got = bha.qinterp(x, xs, q(xs))
                    mon.check(abs(got - q(x)) <= 1e-9 * np.abs(c).sum() * 10, 'quadratic interpolation', x=x, xs=xs, got=got, want=q(x))
                for x in (xs[0] - .01 * s, xs[2] + .01 * s):
                    mon.raises(ValueError, lambda: bha.qinterp(x, xs, xs), 'interpolation: outside')
                mon.raises(ValueError, lambda: bha.qinterp(xs[1], xs[:2], xs), 'interpolation: three values')
                mon.raises(ValueError, lambda: bha.qinterp(xs[1], xs, np.zeros(4)), 'interpolation: three values')

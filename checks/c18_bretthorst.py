"""C18: the Bretthorst algorithm (models linear in their amplitudes), with the real C of its core."""
import numpy as np

RULE = ('random bases, data, errors and set-up functions; histories of questions about several parameter values on several instances '
        'at once, some of which fail; the core called directly with arrays of every kind; non-trivial: a history that returns to '
        'parameters it has left, with a failure between')
ASSUMPTIONS = ['nonlinear parameters are numbers', 'basis functions are deterministic',
               'vbamodule.c is compiled with definitions of what Python 2 had, since the package does not build it']
MODES = ['plain', 'asan']
LEGACY = [('gauss', 'vba', ['vbamodule.c'])]


def minimums(tier):
    return {'memory': 40, 'histories': 200, 'questions': 4000, 'failures': 200, 'direct': 200, 'refusals': 300,
            'set-up functions': 60}


class Fault(Exception):
    pass


SHAPES = [lambda t, w, p: np.cos(w * t), lambda t, w, p: np.sin(w * t), lambda t, w, p: np.ones_like(t), lambda t, w, p: t,
          lambda t, w, p: np.exp(-p * t / 3), lambda t, w, p: t * t - p, lambda t, w, p: 1 / (1 + (t - p) ** 2),
          lambda t, w, p: np.cos(2 * w * t + p)]


def run(mon):
    import sys
    import os
    import inference.gauss.vecba as vecba
    sys.path.insert(0, os.path.dirname(vecba.__file__))
    import vba
    vecba.vba = vba
    vecba.FIRSTTIME = False

    def answer(D, y):
        """amplitudes, Q, suf, Jac, residuals, covariance of the fit of the rows of D to y, and how far to trust them"""
        U, s, Vt = np.linalg.svd(D.T, full_matrices=False)
        amp = Vt.T @ ((U.T @ y) / s)
        res = y - D.T @ amp
        return dict(amp=amp, Q=float(res @ res), suf=float(y @ y - res @ res), Jac=float(1 / np.prod(s)), res=res,
                    cov=(Vt.T / s ** 2) @ Vt, cond=float(s[0] / s[-1]))

    class Obj:
        """What BAObj asks for"""
        def __init__(self, owner):
            self.owner = owner
            self.std_smpls = owner.y / owner.s
            self.std_basis = [lambda a=a: owner.call(a, self.at) / owner.s for a in range(owner.M)]
            self.at = None

        def set_nonlin(self, *p):
            self.at = p
            self.owner.asked.append(p)

    class Case:
        def __init__(self, rng):
            self.M = int(rng.integers(1, 7))
            self.N = self.M + int(rng.integers(0, 25))
            self.t = np.sort(rng.uniform(0, 5, self.N)) + np.arange(self.N) * .05
            self.y = rng.normal(size=self.N) * 10 ** rng.uniform(-3, 3)
            self.two = bool(rng.random() < .5)
            self.pick = [int(j) for j in rng.permutation(len(SHAPES))[:self.M]]
            self.kind = str(rng.choice(['sigmas', 'sigma', 'obj']))
            self.s = rng.uniform(.3, 3, self.N) * 10 ** rng.uniform(-2, 2)
            if rng.random() < .15:
                self.t, self.y = np.round(self.t * 20), np.round(rng.normal(size=self.N) * 9)
            self.asked, self.calls, self.bad = [], [], None
            if self.kind == 'sigma':
                self.s = np.full(self.N, float(self.s[0]) if rng.random() < .7 else int(rng.integers(1, 5)))
            self.setup = self.kind != 'obj' and rng.random() < .5
            if self.kind == 'obj':
                self.ba = vecba.BAObj(Obj(self))
            else:
                basis = [lambda *a, k=k: self.basis(k, a) for k in range(self.M)]
                basis = basis if rng.random() < .5 else tuple(basis)
                kw = {}
                if self.setup:
                    kw['setup'] = self.prepare
                    mon.count('set-up functions')
                if self.kind == 'sigma':
                    data = np.column_stack((self.t, self.y))
                    if rng.random() < .3 and np.all(data == np.round(data)):
                        data = data.astype(int)
                    kw['sigma'] = self.s[0]
                else:
                    data = np.column_stack((self.t, self.y, self.s))
                if rng.random() < .3:
                    data = np.asfortranarray(data)
                self.data, self.copy = data, data.copy()
                self.ba = vecba.BA(basis, data, **kw)
            self.memory = {}

        def prepare(self, *a):
            mon.check(len(a) == (3 if self.two else 2) and np.array_equal(a[-1], self.t), 'what the set-up function is given', args=a[:-1])
            self.asked.append(a[:-1])
            return ('aux', a[:-1])

        def basis(self, k, a):
            n = 2 if self.two else 1
            mon.check(len(a) == n + 1 + self.setup and np.array_equal(a[n], self.t), 'what a basis function is given', args=a[:n])
            if self.setup:
                mon.check(a[-1] == ('aux', a[:n]), 'the set-up is that of the parameters', args=a[:n], aux=a[-1])
            elif k == 0:
                self.asked.append(a[:n])
            return self.call(k, a[:n])

        def call(self, k, p):
            if self.bad == 'raise' and k == self.M - 1:
                raise Fault('injected')
            if self.bad == 'zero' and k == self.M // 2:
                return 0. * self.t
            w, q = (p[0], p[1]) if self.two else (p[0], 1.)
            return SHAPES[self.pick[k]](self.t, w, q)

        def expect(self, p):
            w, q = (p[0], p[1]) if self.two else (p[0], 1.)
            D = np.array([SHAPES[k](self.t, w, q) for k in self.pick]) / self.s
            return answer(D, self.y / self.s)

    def point(rng, c):
        p = [float(np.round(rng.uniform(.3, 3), 3)) for _ in range(2 if c.two else 1)]
        if rng.random() < .1:
            p[0] = int(rng.integers(1, 4))
        return tuple(p)

    for i, rng in mon.cases('history', 240, 30000):
        with mon.case('history', i):
            cs = [Case(rng) for _ in range(int(rng.integers(1, 4)))]
            known = []
            for c in cs:
                pts = []
                for _ in range(40):
                    p = point(rng, c)
                    if pts and rng.random() < .5:
                        # a close neighbour, or one that shares a parameter
                        q = list(pts[int(rng.integers(len(pts)))][0])
                        j = int(rng.integers(len(q)))
                        q[j] = float(q[j] * (1 + 10 ** rng.uniform(-6, -2))) if rng.random() < .7 else p[j]
                        p = tuple(q)
                    e = c.expect(p)
                    if e['cond'] < 1e3:
                        pts.append((p, e))
                    if len(pts) == 5:
                        break
                known.append(pts)
            here = [None] * len(cs)
            kept = []
            left = failed = 0
            mon.note(kinds=[(c.kind, c.M, c.N) for c in cs])
            ops = []

            def same(c, e, what, amp=None, res=None, stats=None, cov=None):
                y = c.y / c.s
                scale = np.sqrt(float(y @ y)) + 1e-300
                tol = 1e-13 * e['cond'] ** 2 + 1e-11
                if amp is not None:
                    mon.close(amp, e['amp'], what + ': amplitudes', rtol=0, atol=tol * scale * np.sqrt(np.trace(e['cov'])))
                if res is not None:
                    mon.close(res, e['res'], what + ': residuals', rtol=0, atol=tol * scale)
                if stats is not None:
                    mon.check(len(stats) == 3, what + ': three statistics')
                    mon.close(stats[0], e['Q'], what + ': sum of squared residuals', rtol=0, atol=tol * scale ** 2)
                    mon.close(stats[1], e['suf'], what + ': sufficient statistic', rtol=0, atol=tol * scale ** 2)
                    mon.close(stats[2], e['Jac'], what + ': Jacobian', rtol=tol * 10)
                if cov is not None:
                    d = np.sqrt(np.diag(e['cov']))
                    mon.close(cov, e['cov'], what + ': covariance', rtol=0, atol=tol * 10 * np.outer(d, d))
            for step in range(int(rng.integers(6, 30))):
                w = int(rng.integers(len(cs)))
                c, pts = cs[w], known[w]
                if not pts:
                    continue
                p, e = pts[int(rng.integers(len(pts)))]
                op = str(rng.choice(['stats', 'stats', 'amp', 'res', 'amp0', 'res0', 'cov', 'bad']))
                ops.append((w, op, p))
                mon.note(ops=ops[-8:])
                c.asked = []
                fresh = here[w] is None or here[w][0] != p
                if op in ('amp0', 'res0', 'cov') and here[w] is None:
                    if op == 'cov':
                        mon.raises(ValueError, c.ba.covar, 'no fit yet')
                        mon.count('refusals')
                    continue
                if op == 'bad':
                    c.bad = str(rng.choice(['raise', 'zero']))
                    q = point(rng, c)
                    if here[w] is not None and q == here[w][0]:
                        c.bad = None
                        continue
                    f = [c.ba.marg_stats, c.ba.amplitudes, c.ba.residuals][int(rng.integers(3))]
                    mon.raises(Fault if c.bad == 'raise' else ValueError, lambda: f(*q), 'a basis that fails' if c.bad == 'raise' else
                               'a degenerate basis')
                    c.bad = None
                    failed += 1
                    mon.count('failures')
                    # what is answered without parameters is still what was answered last, or refused
                    if here[w] is not None and rng.random() < .6:
                        try:
                            cov, res, amp = c.ba.covar(), c.ba.residuals(), c.ba.amplitudes()
                        except (ValueError, AttributeError):
                            pass
                        else:
                            same(c, here[w][1], 'after a failure', amp=amp, res=res, cov=cov)
                    continue
                if op == 'stats':
                    same(c, e, op, stats=c.ba.marg_stats(*p))
                elif op == 'amp':
                    a = c.ba.amplitudes(*p)
                    same(c, e, op, amp=a)
                    kept.append((a, np.array(a)))
                elif op == 'res':
                    r = c.ba.residuals(*p)
                    same(c, e, op, res=r)
                    kept.append((r, np.array(r)))
                elif op == 'amp0':
                    same(c, here[w][1], op, amp=c.ba.amplitudes())
                elif op == 'res0':
                    same(c, here[w][1], op, res=c.ba.residuals())
                else:
                    same(c, here[w][1], op, cov=c.ba.covar())
                mon.count('questions')
                if op in ('stats', 'amp', 'res'):
                    mon.check(all(tuple(q) == p for q in c.asked), 'the basis is evaluated for the parameters given', asked=c.asked, want=p)
                    if not c.asked:
                        mon.count('answers from memory')
                    left += here[w] is not None and fresh
                    here[w] = (p, e)
                for a, b in kept:
                    mon.check(np.array_equal(a, b), 'earlier answers stay as they are')
                if c.kind != 'obj':
                    mon.check(np.array_equal(c.data, c.copy), 'the data are unchanged')
            mon.count('histories')
            if left > 1 and failed:
                mon.hit(i, tuple(c.kind for c in cs))
            if i % 40 == 0:
                mon.sample(kinds=[(c.kind, c.M, c.N) for c in cs], ops=ops[:12])

    for i, rng in mon.cases('direct', 240, 30000):
        with mon.case('direct', i):
            M = int(rng.integers(1, 9))
            N = M + int(rng.integers(0, 40))
            D = rng.normal(size=(M, N)) * 10 ** rng.uniform(-3, 3, (M, 1))
            y = rng.normal(size=N)
            how = int(rng.integers(6))
            A, b = D, y
            if how == 1:
                A = np.asfortranarray(D)
            elif how == 2:
                A, b = np.repeat(np.repeat(D, 2, 0), 3, 1)[::2, ::3], np.repeat(y, 2)[::2]
            elif how == 3:
                A, b = D.tolist(), y.tolist()
            elif how == 4:
                D, y = np.round(rng.normal(size=(M, N)) * 9), np.round(y * 9)
                A, b = D.astype(int), y.astype(int)
            elif how == 5:
                A, b = D.astype('>f8'), y.astype(np.float32)
                y = b.astype(float)
            mon.note(M=M, N=N, how=how)
            sc = np.sqrt(np.sum(D * D, 1))
            if np.any(sc == 0):
                continue
            e = answer(D / sc[:, None], y)
            if e['cond'] > 1e3:
                continue
            keep = [np.array(A), np.array(b)]
            metric, L, rdet, proj, amp, suf = vba.metricAnalysis(A, b)
            tol = 1e-13 * e['cond'] ** 2 + 1e-11
            nz = np.outer(sc, sc)
            mon.close(metric, D @ D.T, 'metric', rtol=0, atol=1e-12 * nz)
            mon.check(np.array_equal(L, np.tril(L)), 'a lower triangle')
            mon.close(L @ L.T, D @ D.T, 'factor of the metric', rtol=0, atol=1e-12 * nz)
            mon.close(rdet, np.prod(sc) / e['Jac'], 'root of the determinant', rtol=tol * 10)
            mon.close(proj, D @ y, 'projections', rtol=0, atol=1e-12 * sc * np.sqrt(y @ y))
            mon.close(amp * sc, e['amp'], 'amplitudes', rtol=0, atol=tol * np.sqrt(np.trace(e['cov']) * (y @ y)) + 1e-300)
            mon.close(suf, e['suf'], 'sufficient statistic', rtol=0, atol=tol * (y @ y) + 1e-300)
            Lin = L if rng.random() < .5 else [L.tolist(), np.asfortranarray(L), np.repeat(L, 2, 1)[:, ::2]][int(rng.integers(3))]
            cov = vba.covar(Lin)
            d = np.sqrt(np.diag(e['cov']))
            mon.close(cov * nz, e['cov'], 'covariance', rtol=0, atol=tol * 10 * np.outer(d, d))
            mon.check(np.abs(cov - cov.T).max() <= 1e-10 * np.abs(cov).max(), 'a symmetric covariance')
            mon.check(np.array_equal(np.array(A), keep[0]) and np.array_equal(np.array(b), keep[1]), 'arguments are unchanged')
            mon.count('direct')
            # refusals
            bad = D.copy()
            bad[int(rng.integers(M))] = 0.
            mon.raises(ValueError, lambda: vba.metricAnalysis(bad, y), 'a degenerate basis')
            mon.raises((ValueError, TypeError), lambda: vba.metricAnalysis(D, np.append(y, 1.)), 'lengths that do not match')
            mon.raises((ValueError, TypeError), lambda: vba.metricAnalysis(D[:, :-1] if N > 1 else D[:, :0], y), 'lengths that do not match')
            mon.raises((ValueError, TypeError), lambda: vba.metricAnalysis(y, y), 'a design that is not a matrix')
            mon.raises((ValueError, TypeError), lambda: vba.metricAnalysis(D, D), 'samples that are not a vector')
            mon.raises((ValueError, TypeError), lambda: vba.covar(y), 'a factor that is not a matrix')
            wide = np.ones((M, M + 1 + int(rng.integers(5))))
            mon.raises((ValueError, TypeError), lambda: vba.covar(wide), 'a factor that is not square')
            mon.raises((ValueError, TypeError), lambda: vba.covar(np.ascontiguousarray(wide.T)), 'a factor that is not square')
            mon.raises((ValueError, TypeError), lambda: vba.covar(np.ones((M + 40, 1))), 'a factor that is not square')
            mon.count('refusals', 9)

    # -- memory in use does not grow with the number of analyses ------------------------------------------------------
    for i, rng in mon.cases('memory', 16 if mon.mode == 'plain' else 0, 200 if mon.mode == 'plain' else 0):
        with mon.case('memory', i):
            M, N = int(rng.integers(30, 50)), int(rng.integers(600, 1200))
            D = np.round(rng.normal(size=(M, N)) * 9)
            y = np.round(rng.normal(size=N) * 9)
            L = np.asfortranarray(vba.metricAnalysis(D, y)[1])
            zero = D.copy()
            zero[M // 2] = 0.

            def failing(*a):
                try:
                    vba.metricAnalysis(*a)
                except (ValueError, TypeError):
                    pass
            for what, f in (('of arrays', lambda: vba.metricAnalysis(D, y)), ('of integers', lambda: vba.metricAnalysis(D.astype(int), y.astype(int))),
                            ('covariances', lambda: vba.covar(L)), ('a degenerate basis', lambda: failing(zero.astype(int), y.astype(int))),
                            ('lengths that do not match', lambda: failing(D.astype(int), y[:-1].astype(int)))):
                mon.gives_back(f, 'analyses give back the memory they use', analyses=what, M=M, N=N)
                mon.count('memory')

    for i, rng in mon.cases('malformed', 24, 200):
        with mon.case('malformed', i):
            n = int(rng.integers(2, 9))
            f = [lambda a, x: x]
            d = rng.uniform(1, 2, (n, 3))
            mon.raises(ValueError, lambda: vecba.BA(f, d, sigma=2.), 'two sets of errors')
            mon.raises(ValueError, lambda: vecba.BA(f, d[:, :2]), 'no errors')
            mon.raises(ValueError, lambda: vecba.BA(f, np.column_stack((d, d[:, 0]))), 'too many columns')
            mon.count('refusals', 3)

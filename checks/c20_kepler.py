"""C20: Keplerian orbits: anomalies against an independent solution of Kepler's equation, in every form, over histories."""
import io
import math

import numpy as np

RULE = ('random orbits (eccentricities to .99999 and, apart, closer to one), times (near periastron and apastron, many periods off) and '
        'tolerances; histories in which several orbits and the functions of the module take turns, with refused calls between; '
        'non-trivial: a history that goes back to an orbit after another was used and a call was refused')
ASSUMPTIONS = ['period positive, eccentricity at least zero and below one', 'fkeplermodule.c is compiled with definitions of what '
               'Python 2 had, since no package builds it']
MODES = ['plain', 'asan']
LEGACY = [('sandbox/signals', 'fkepler', ['fkeplermodule.c'])]
L = np.longdouble
EPS = 2.3e-16


def minimums(tier):
    return {'memory': 40, 'histories': 300, 'solutions': 30000, 'refusals': 1000, 'velocities': 1500, 'curves': 300, 'stores': 600, 'near one': 200,
            'returns to an orbit': 500}


def kepler(M, e):
    """The solution of E - e sin E = M, |M| <= pi, by bisection and then Newton's method in extended precision"""
    e = L(e)
    lo, hi = np.minimum(M, L(0)), np.maximum(M, L(0))
    lo, hi = lo - e * (M < 0) * L(1.0001), hi + e * (M > 0) * L(1.0001)
    for _ in range(70):
        E = (lo + hi) / 2
        neg = E - e * np.sin(E) < M
        lo, hi = np.where(neg, E, lo), np.where(neg, hi, E)
    for _ in range(3):
        E = (lo + hi) / 2 if _ == 0 else E
        E = np.clip(E - (E - e * np.sin(E) - M) / (1 - e * np.cos(E)), lo - L(1e-15), hi + L(1e-15))
    return E


class Truth:
    """What an orbit gives at the times, and how far off it may be"""
    def __init__(self, tau, e, Tp, times, tol):
        t = np.asarray(times, float).astype(L)
        x = (t - L(Tp)) / L(tau)
        slack = 2 * math.pi * EPS * (4 * np.abs(x) + 2 + 2 * abs(Tp / tau) + 2 * np.abs(t / tau)).astype(float)
        M = (x - np.rint(x)) * 2 * L('3.14159265358979323846264338327950288')
        E = kepler(M, e)
        one = (1 - L(e) * np.cos(E)).astype(float)
        # Eccentric anomaly: what is asked for, and what rounding of the phase does, which near periastron is not linear
        near = np.cbrt(6 * slack / max(e, 1e-300)) if e > 0 else np.inf
        self.dE = tol + np.minimum(slack / max(1 - e, 1e-300), np.minimum(near, np.inf)) + 4 * EPS
        low = 1 - e * np.cos(np.maximum(np.abs(E.astype(float)) - self.dE, 0))
        low = np.maximum(low, 1 - e)
        self.dT = self.dE * np.sqrt(max(1 - e * e, 0)) / np.minimum(low, one) + 3e-8
        self.E = E.astype(float)
        self.cE, self.sE = np.cos(E).astype(float), np.sin(E).astype(float)
        # from the half angle, which keeps its digits as e approaches one
        num, den = np.sqrt(1 + L(e)) * np.sin(E / 2), np.sqrt(1 - L(e)) * np.cos(E / 2)
        h = num * num + den * den
        self.c, self.s = ((den * den - num * num) / h).astype(float), (2 * num * den / h).astype(float)
        self.jump = np.abs(np.abs(M.astype(float)) - math.pi) <= slack + tol     # which side of the apastron: both are right


def run(mon):
    from signals import kepler as K
    from signals import fkepler as F

    def eccentricity(rng):
        k = int(rng.integers(6))
        return [0., float(rng.uniform(0, .3)), float(rng.uniform(.3, .9)), float(rng.uniform(.9, .99)),
                1 - 10 ** float(rng.uniform(-5, -2)), float(rng.uniform(0, 1))][k] if k < 5 else float(rng.uniform(0, .95))

    def orbit(rng):
        tau = 10 ** float(rng.uniform(-3, 4))
        Tp = float(rng.choice([0., tau * rng.uniform(-1, 1), tau * rng.uniform(-300, 300)]))
        return tau, eccentricity(rng), Tp

    def moments(rng, tau, e, Tp, n=None):
        n = int(rng.choice([0, 1, 2, int(rng.integers(3, 40))])) if n is None else n
        x = rng.uniform(-.5, .5, n)
        for i in range(n):
            k = int(rng.integers(8))
            if k == 0:
                x[i] = float(rng.choice([0., .5, -.5, .25, -.25, 1, 2.5, -3.5]))
            elif k == 1:
                x[i] = float(rng.choice([-1, 1])) * 10 ** float(rng.uniform(-15, -2))
            elif k == 2:
                x[i] = .5 - float(rng.choice([-1, 1])) * 10 ** float(rng.uniform(-15, -2))
            elif k == 3:
                x[i] = float(rng.uniform(-200, 200))
        t = Tp + tau * x
        if rng.random() < .1:
            t = np.rint(t)
        return t

    def forms(rng, t):
        """The times as something a caller may have at hand"""
        k = int(rng.integers(6))
        if k == 0:
            return t.tolist()
        if k == 1:
            b = np.full(3 * len(t) + 1, np.nan)
            b[1::3] = t
            return b[1::3]
        if k == 2:
            return tuple(t.tolist())
        if k == 3:
            return t[::-1].copy()[::-1]
        if k == 4 and np.array_equal(t, np.rint(t)) and np.all(np.abs(t) < 2 ** 31):
            return t.astype(int)
        r = t.copy()
        r.flags.writeable = bool(rng.random() < .5)
        return r

    def values(got, T, dc, what, want, **d):
        c, s = want
        got = np.asarray(got)
        if not mon.check(got.shape == (len(c), 2) and got.dtype == float, what + ': an array of cosines and sines', got=got, **d):
            return
        mon.count('solutions', len(c))
        for j, (name, w) in enumerate((('cosines', c), ('sines', s))):
            with np.errstate(all='ignore'):
                bad = ~(np.abs(got[:, j] - w) <= dc)
            if bad.any():
                i = int(np.argmax(bad))
                mon.check(False, '%s: %s' % (what, name), index=i, got=float(got[i, j]), want=float(w[i]), off=float(dc[i]), **d)
        mon.assertions += 2

    def store(rng, n):
        k = int(rng.integers(5))
        if k == 0:
            b = np.full((2 * n + 1, 5), 7.25)
            return b[:2 * n:2, 1::2], b
        if k == 1:
            b = np.full((2, n + 2), 7.25)
            return b[:, 1:n + 1].T, b
        if k == 2:
            b = np.full((n + 2, 2), 7.25)
            return b[1:-1], b
        if k == 3:
            b = np.full((n, 2), 7.25, dtype='>f8')
            return b, b
        b = np.full((n, 2), 7.25)
        return b, b

    def setup(rng, o):
        tau, e, Tp = o
        k = int(rng.integers(3))
        if k == 0:
            F.setup_Tp(tau, e, Tp)
        elif k == 1:
            F.setup_M0(tau, e, -2 * math.pi * Tp / tau)
        else:
            F.setup_Mp(tau, e, 2 * math.pi * Tp / tau)
        return ('Tp', 'M0', 'Mp')[k]

    class Bad:
        def __float__(self):
            raise KeyError('bad')

    def ask(rng, o, tol):
        """One call of a function of the module, for the orbit last set up"""
        tau, e, Tp = o
        t = moments(rng, *o)
        arg = forms(rng, t)
        T = Truth(tau, e, Tp, t, tol)
        k = str(rng.choice(['t2EA', 't2TA', 'vt2EA', 'vt2TA', 't2EA_store', 't2TA_store', 't2anoms']))
        keep = np.array(arg, float)
        d = dict(orbit=o, tol=tol, times=t)
        mon.note(function=k, **d)
        if k == 't2EA':
            for i, x in enumerate(t[:10]):
                E = F.t2EA(float(x))
                mon.count('solutions')
                mon.check(isinstance(E, float) and abs(E) <= math.pi + T.dE[i] and
                          (abs(E - T.E[i]) <= T.dE[i] or T.jump[i] and abs(abs(E) - math.pi) <= T.dE[i] * 2 + tol),
                          't2EA: eccentric anomaly', got=E, want=T.E[i], t=x, off=T.dE[i], **d)
        elif k == 't2TA':
            r = [F.t2TA(float(x)) for x in t]
            for x in r:
                mon.check(isinstance(x, tuple) and len(x) == 2, 't2TA: cosine and sine', got=x)
            values(np.array(r, float).reshape(len(t), 2), T, T.dT, k, (T.c, T.s), **d)
        elif k == 'vt2EA':
            values(F.vt2EA(arg), T, T.dE, k, (T.cE, T.sE), **d)
        elif k == 'vt2TA':
            values(F.vt2TA(arg), T, T.dT, k, (T.c, T.s), **d)
        else:
            mon.count('stores')
            a, base = store(rng, len(t))
            if k == 't2anoms':
                b, base2 = store(rng, len(t))
                r = F.t2anoms(arg, a, b)
                values(b.astype(float), T, T.dT, 't2anoms: true anomaly', (T.c, T.s), **d)
                values(a.astype(float), T, T.dE, 't2anoms: eccentric anomaly', (T.cE, T.sE), **d)
                b[...] = 7.25
                mon.check(np.all(base2 == 7.25), 'nothing outside the array for results is written', function=k)
            else:
                r = getattr(F, k)(arg, a)
                w, dc = ((T.cE, T.sE), T.dE) if 'EA' in k else ((T.c, T.s), T.dT)
                values(a.astype(float), T, dc, k, w, **d)
            mon.check(r is None, 'nothing is returned when results are stored', got=r)
            a[...] = 7.25
            mon.check(np.all(base == 7.25), 'nothing outside the array for results is written', function=k)
        mon.check(np.array_equal(keep, np.array(arg, float)), 'the times are left as they are', function=k)

    def refuse(rng, o):
        """A call that cannot be served raises, and changes nothing"""
        t = np.linspace(0., 1., 5)
        z = np.zeros
        k = int(rng.integers(14))
        n = 1e9
        mon.count('refusals')
        bad, exc = [
            (lambda: F.setup_Tp(n, .5, 'x'), TypeError), (lambda: F.setup_M0(n, .5, None), TypeError),
            (lambda: F.setup_Mp(n, .7, Bad()), KeyError), (lambda: F.setup_Tp(n, .5), TypeError),
            (lambda: F.settol('x'), TypeError), (lambda: F.vt2TA(), TypeError), (lambda: F.vt2EA(t, t), TypeError),
            (lambda: F.vt2TA(z((3, 2))), ValueError), (lambda: F.vt2EA(3.), ValueError),
            (lambda: F.t2TA_store(t, z((4, 2))), ValueError), (lambda: F.t2EA_store(t, z((5, 3))), ValueError),
            (lambda: F.t2anoms(t, z((5, 2)), z((6, 2))), ValueError), (lambda: F.t2anoms(t, z((4, 2)), z((5, 2))), ValueError),
            (lambda: F.t2TA_store(t, z(10)), ValueError)][k]
        mon.note(refusal=k)
        mon.raises(exc, bad, 'a call that cannot be served raises')

    # -- the functions of the module -------------------------------------------------------------------------
    for i, rng in mon.cases('solve', 1600, 40000):
        tol = 10 ** float(rng.uniform(-13, -4))
        o = orbit(rng)
        with mon.case('solve', i, orbit=o, tol=tol):
            mon.count('histories')
            F.settol(tol)
            mon.seen('forms', setup(rng, o))
            for _ in range(int(rng.integers(1, 8))):
                if rng.random() < .3:
                    refuse(rng, o)
                if rng.random() < .1:
                    tol = 10 ** float(rng.uniform(-13, -4))
                    F.settol(tol)
                if rng.random() < .1:
                    o = orbit(rng)
                    setup(rng, o)
                ask(rng, o, tol)
            if i % 97 == 0:
                mon.sample(orbit=o)

    # -- memory in use does not grow with the number of solutions -------------------------------------------------------
    for i, rng in mon.cases('memory', 16 if mon.mode == 'plain' else 0, 200 if mon.mode == 'plain' else 0):
        with mon.case('memory', i):
            n = int(rng.integers(400, 800))
            t = np.round(rng.uniform(0, 1000, n))
            F.settol(1e-8)
            F.setup_Tp(7., .3, 1.)
            a, b = np.zeros((2 * n, 2))[::2], np.zeros((n, 4))[:, ::2]

            def failing(f, *args):
                try:
                    f(*args)
                except (ValueError, TypeError):
                    pass
            for what, f in (('vt2EA', lambda: F.vt2EA(t.astype(int))), ('vt2TA', lambda: F.vt2TA(t.astype(int))),
                            ('t2EA_store', lambda: F.t2EA_store(t.astype(int), a)), ('t2TA_store', lambda: F.t2TA_store(t.astype(int), a)),
                            ('t2anoms', lambda: F.t2anoms(t.astype(int), a, b)),
                            ('refused', lambda: (failing(F.t2EA_store, t.astype(int), np.zeros((n + 1, 2))), failing(F.t2TA_store, t.astype(int), np.zeros((n + 1, 2))),
                                                 failing(F.t2anoms, t.astype(int), np.zeros((n + 1, 2)), np.zeros((n, 2))),
                                                 failing(F.t2anoms, t.astype(int), np.zeros((n, 2)), np.zeros((n + 1, 2)))))):
                mon.gives_back(f, 'solutions give back the memory they use', solutions=what, n=n)
                mon.count('memory')

    # -- eccentricities too close to one for the number of iterations: right, or an exception -----------------------
    for i, rng in mon.cases('near one', 400, 8000):
        tol = 10 ** float(rng.uniform(-14, -4))
        e = 1 - 10 ** float(rng.uniform(-13, -5))
        tau, Tp = float(rng.uniform(.5, 50)), 0.
        with mon.case('near one', i, e=e, tol=tol, tau=tau):
            F.settol(tol)
            F.setup_Tp(tau, e, Tp)
            t = tau * rng.choice([-1, 1], 12) * 10 ** rng.uniform(-14, -.31, 12)
            T = Truth(tau, e, Tp, t, tol)
            for j, x in enumerate(t):
                mon.count('near one')
                try:
                    E = F.t2EA(float(x))
                    mon.check(abs(E - T.E[j]) <= T.dE[j], 't2EA: right or an exception', got=E, want=T.E[j], t=x)
                    mon.count('near one: solved')
                except RuntimeError:
                    mon.count('near one: refused')
            for f, w, dc in ((F.vt2EA, (T.cE, T.sE), T.dE), (F.vt2TA, (T.c, T.s), np.maximum(T.dT, 1e-6))):
                try:
                    r = f(t)
                except RuntimeError:
                    mon.count('near one: refused')
                    continue
                if f is F.vt2EA:
                    values(r, T, dc, 'right or an exception', w, e=e, tol=tol, times=t)
                mon.check(np.all(np.abs(np.hypot(r[:, 0], r[:, 1]) - 1) < 1e-6), 'cosines and sines belong together', got=r)
            bad = float('nan')
            t[int(rng.integers(12))] = bad
            for f in (F.vt2EA, F.vt2TA):
                try:
                    r = f(t)
                    mon.check(np.isnan(r).any(), 'a time that is no number gives no answer', got=r, t=bad)
                except RuntimeError:
                    pass
            mon.hit('near', i)

    # -- velocities: several orbits, used in turn ---------------------------------------------------------------
    for i, rng in mon.cases('velocities', 800, 20000):
        with mon.case('velocities', i):
            mon.count('histories')
            tol = float(10 ** rng.uniform(-12, -5))
            F.settol(tol)
            orbits = []
            for _ in range(int(rng.integers(1, 4))):
                tau, e, Tp = orbit(rng)
                e = min(e, .999)
                k = dict(K=float(10 ** rng.uniform(-2, 3)) * float(rng.choice([1, 1, -1])), tau=tau, e=e, long=float(rng.uniform(-7, 7)),
                         T0=Tp, v0=float(rng.normal() * 20))
                orbits.append(dict(k, o=K.Orbit(k['K'], tau, e, k['long'], Tp, k['v0']), last=None))
            used = None
            mon.note(orbits=[{x: y for x, y in p.items() if x != 'o'} for p in orbits], tol=tol)

            def velocity(p, T):
                v = p['v0'] + p['K'] * (math.cos(p['long']) * (p['e'] + T.c) - math.sin(p['long']) * T.s)
                return v, abs(p['K']) * (2 * T.dT + 1e-14) + 1e-14 * abs(p['v0'])

            def same(got, want, off, what, **d):
                got = np.asarray(got, float)
                mon.assertions += 1
                mon.check(got.shape == want.shape and bool(np.all(np.abs(got - want) <= off)), what, got=got, want=want, **d)

            for _ in range(int(rng.integers(2, 12))):
                p = orbits[int(rng.integers(len(orbits)))]
                if used is not None and used is not p and p['last'] is not None:
                    mon.count('returns to an orbit')
                    mon.hit(i, _)
                used = p
                t = moments(rng, p['tau'], p['e'], p['T0'])
                arg = forms(rng, t)
                T = Truth(p['tau'], p['e'], p['T0'], t, tol)
                k = str(rng.choice(['true', 'ecc', 'K1', 'K2', 'v', 'stored', 'stored', 'function', 'number', 'curve', 'text',
                                    'refused', 'other']))
                mon.note(call=k, which=orbits.index(p), times=t)
                if k == 'true':
                    values(p['o'].true_anom(arg), T, T.dT, 'true_anom', (T.c, T.s))
                    p['last'] = T
                elif k == 'ecc':
                    values(p['o'].ecc_anom(arg), T, T.dE, 'ecc_anom', (T.cE, T.sE))
                elif k == 'K1':
                    same(p['o'].K1(arg), p['e'] + T.c, T.dT, 'K1 is the eccentricity plus the cosine')
                    p['last'] = T
                elif k == 'K2':
                    same(p['o'].K2(arg), T.s, T.dT, 'K2 is the sine')
                    p['last'] = T
                elif k == 'v':
                    mon.count('velocities')
                    v, off = velocity(p, T)
                    same(p['o'].v_rad(arg), v, off, 'the velocity along the line of sight')
                    p['last'] = T
                elif k == 'stored' and p['last'] is not None:
                    T = p['last']
                    v, off = velocity(p, T)
                    for _ in range(2):
                        q = int(rng.integers(3))
                        mon.count('velocities')
                        if q == 0:
                            same(p['o'].K1(), p['e'] + T.c, T.dT, 'K1 for the times given before')
                        elif q == 1:
                            same(p['o'].K2(), T.s, T.dT, 'K2 for the times given before')
                        else:
                            same(p['o'].v_rad(), v, off, 'the velocity for the times given before')
                elif k == 'function':
                    mon.count('velocities')
                    v, off = velocity(p, T)
                    same(K.v_rad(p['K'], p['tau'], p['e'], p['long'], p['T0'], p['v0'], arg), v, off, 'v_rad at an array of times')
                elif k == 'number' and len(t):
                    mon.count('velocities')
                    v, off = velocity(p, T)
                    x = float(t[0])
                    x = int(x) if x == int(x) else np.float64(x) if rng.random() < .3 else x
                    r = K.v_rad(p['K'], p['tau'], p['e'], p['long'], p['T0'], p['v0'], x)
                    mon.check(np.ndim(r) == 0 and abs(float(r) - v[0]) <= off[0], 'v_rad at one time', got=r, want=v[0], off=off[0])
                elif k in ('curve', 'text'):
                    mon.count('curves')
                    n = int(rng.integers(2, 60))
                    ph = np.linspace(-.5, 1.5, n)
                    T = Truth(p['tau'], p['e'], p['T0'], p['tau'] * ph, tol + 1e-14)
                    v, off = velocity(p, T)
                    jitter = 1e-13 * 2 * math.pi / (1 - p['e']) ** 2 * abs(p['K']) * 4
                    if k == 'curve':
                        a, b = p['o'].phase_vel(n)
                        same(a, ph, 1e-12, 'phases of the curve')
                        same(b, v, off + jitter, 'velocities of the curve')
                    else:
                        label = str(rng.choice(['', 'vcurve', 'a b']))
                        if rng.random() < .5:
                            f = io.StringIO()
                            r = p['o'].writeVelCurve(n, f, label or None)
                            mon.check(r is None and f.getvalue().endswith('\n\n'), 'the curve goes to the file, with an empty line after it')
                            text = f.getvalue()[:-1]
                        else:
                            text = p['o'].writeVelCurve(n, label=label or None)
                        rows = text.splitlines()
                        mon.require(len(rows) == n and all(r.startswith(label) for r in rows), 'one labelled line for each phase', rows=rows[:3], n=n)
                        got = np.array([[float(x) for x in r[len(label):].split()] for r in rows])
                        same(got[:, 0], ph, 6e-5, 'phases in the text')
                        same(got[:, 1], v, off + jitter + 6e-5, 'velocities in the text')
                    p['last'] = T
                    mon.note(last='curve')
                elif k == 'refused':
                    mon.count('refusals')
                    f = getattr(p['o'], str(rng.choice(['true_anom', 'ecc_anom', 'K1', 'K2', 'v_rad'])))
                    mon.raises(ValueError, lambda: f(np.zeros((3, 2))), 'times of two dimensions are refused')
                elif k == 'other':
                    setup(rng, orbit(rng))
                    if rng.random() < .5:
                        refuse(rng, None)

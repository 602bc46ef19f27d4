"""C16: steppers, sums of logarithms and bracketing of zeros."""
import math

import numpy as np

RULE = ('random ranges, step counts, sequences of logarithms over the whole exponent range and functions with zeros, against '
        'exact formulas; non-trivial: steppers of three or more steps, sums of two or more terms, brackets that had to expand')
ASSUMPTIONS = ['functions return numbers, not NaN', 'steppers have two or more steps, logarithmic ones positive ends']


def minimums(tier):
    return {'steppers': 600, 'sums': 1500, 'terms': 20000, 'brackets': 500, 'failed brackets': 100, 'evaluations': 4000}


def run(mon):
    from inference.utils.numutils import (lin_stepper, lin_enum_stepper, log_stepper, log_enum_stepper, LogSummer, zbracket)

    for i, rng in mon.cases('stepper', 800, 40000):
        n = int(rng.integers(2, 12)) if rng.random() < .8 else int(rng.integers(12, 3000))
        log = rng.random() < .5
        if log:
            lo, hi = (10 ** rng.uniform(-8, 8, 2)).tolist()
            if rng.random() < .2:
                lo, hi = int(rng.integers(1, 20)), int(rng.integers(21, 90))
        else:
            lo, hi = (rng.normal(size=2) * 10 ** rng.uniform(-5, 5, 2)).tolist()
            if rng.random() < .2:
                lo, hi = int(rng.integers(-20, 20)), int(rng.integers(21, 90))
        with mon.case('stepper', i, log=log, lo=lo, hi=hi, n=n):
            st, en = (log_stepper, log_enum_stepper) if log else (lin_stepper, lin_enum_stepper)
            got = list(st(lo, hi, n))
            mon.require(len(got) == n, 'number of steps', got=len(got))
            mon.check(got[0] == lo and got[-1] == hi, 'the ends are exact', got=(got[0], got[-1]))
            t = np.arange(n) / (n - 1.)
            want = lo * (hi / lo) ** t if log else lo + (hi - lo) * t
            tol = 1e-13 * n * (np.abs(want) * (1 + abs(math.log(hi / lo))) if log else max(abs(lo), abs(hi)))
            mon.close(np.array(got, float), want, 'the steps are equal', rtol=0, atol=tol)
            d = np.diff(np.array(got, float))
            mon.check(np.all(d > 0) if hi > lo else np.all(d < 0), 'the steps go one way')
            pairs = list(en(lo, hi, n))
            mon.check([p[0] for p in pairs] == list(range(n)), 'the steps are numbered')
            mon.close(np.array([p[1] for p in pairs], float), want, 'numbered steps are the same', rtol=0, atol=tol)
            mon.check(pairs[0][1] == lo and pairs[-1][1] == hi, 'the ends are exact, numbered', got=(pairs[0], pairs[-1]))
            # two at once do not interfere
            a, b = st(lo, hi, n), st(lo, hi, n)
            mixed = [next(a), next(b), next(b)] + [next(a)]
            mon.check(mixed == [got[0], got[0], got[1], got[1]], 'two steppers are independent')
            mon.count('steppers')
            if n > 2:
                mon.hit('s', i)

    for i, rng in mon.cases('sum', 1600, 60000):
        n = int(rng.integers(1, 40)) if rng.random() < .95 else 3000
        scale = float(10 ** rng.uniform(-3, 4))
        vals = rng.normal(size=n) * scale + float(rng.normal() * 10 ** rng.uniform(0, 5))
        o = rng.random()
        if o < .15:
            vals = np.sort(vals)
        elif o < .3:
            vals = np.sort(vals)[::-1]
        elif o < .4:
            vals = np.full(n, vals[0])
        elif o < .5:
            vals = vals[0] + np.log(rng.uniform(.9, 1.1, n))
        zeros = int(rng.integers(0, 4)) if rng.random() < .3 else 0
        sig = bool(rng.random() < .5)
        with mon.case('sum', i, n=n, zeros=zeros, sig=sig, head=vals[:6]):
            start = None
            s = LogSummer(1) if sig else LogSummer()
            prior = 0
            if not sig and rng.random() < .2:
                prior, m = int(rng.integers(1, 9)), float(vals[0] + rng.normal() * scale)
                s = LogSummer(start=(prior, m))
                start = m
            seq = [('v', v) for v in vals] + [('z', None)] * zeros
            if zeros:
                seq = [seq[k] for k in rng.permutation(len(seq))]
            for k, (t, v) in enumerate(seq):
                if t == 'z':
                    s.add_zero()
                else:
                    s += v if rng.random() < .5 else float(v)
            allv = np.append(vals, start) if start is not None else vals
            top = np.max(allv)
            want = top + math.log(math.fsum(np.exp(allv - top)))
            N = n + zeros + prior
            out = s.status()
            tol = 1e-12 * (1 + abs(top)) + 1e-14 * n + 1e-13
            mon.check(out[0] == N, 'number of terms', got=out[0], want=N)
            mon.close(out[1], want, 'log of the sum', rtol=0, atol=tol)
            mon.close(out[-2] if sig else out[2], want - math.log(N), 'log of the mean', rtol=0, atol=tol)
            if sig:
                w2 = 2 * top + math.log(math.fsum(np.exp(2 * (vals - top))))
                mon.close(out[2], w2, 'log of the sum of squares', rtol=0, atol=2 * tol)
                # the standard deviation, by way of scaled values
                x = np.append(np.exp(vals - top), np.zeros(zeros))
                var = float(np.mean(x * x) - np.mean(x) ** 2)
                if var > 1e-4 * np.mean(x * x):
                    mon.close(out[4], top + .5 * math.log(var), 'log of the standard deviation', rtol=0, atol=1e-7 + 1e4 * tol)
                else:
                    mon.check(not np.isnan(out[4]) and out[4] <= top + .5 * math.log(2e-4 * np.mean(x * x)) + 1e4 * tol,
                              'a small standard deviation', got=out[4])
            mon.check(s.status() == out or any(np.isnan(v) for v in out), 'status twice')
            mon.count('sums')
            mon.count('terms', n)
            if n > 1:
                mon.hit('l', i)
            if i % 200 == 0:
                mon.sample(n=n, result=out, want=want)

    for i, rng in mon.cases('empty', 8, 40):
        with mon.case('empty', i):
            s = LogSummer()
            mon.raises(ValueError, s.status, 'a sum of nothing')
            s.add_zero()
            mon.raises(ValueError, s.status, 'a sum of zeros')
            s += -3.
            mon.close(s.status()[1], -3., 'a sum after zeros', rtol=1e-15)
            mon.check(s.status()[0] == 2, 'zeros count')

    for i, rng in mon.cases('zero', 1200, 60000):
        c = float(rng.normal() * 10 ** rng.uniform(-2, 2))
        s = float(10 ** rng.uniform(-2, 2)) * float(rng.choice([-1, 1]))
        k = int(rng.integers(7))
        tiny = 10. ** float(rng.choice([0, 0, 0, -170, -200, 120]))
        f = [lambda x: tiny * s * (x - c), lambda x: tiny * s * (x - c) ** 3, lambda x: tiny * math.atan(s * (x - c)),
             lambda x: tiny * (math.exp(min(x - c, 600.)) - 1), lambda x: tiny * (math.copysign(1., x - c) if x != c else 0.),
             lambda x: tiny * (1 + s * s * (x - c) ** 2), lambda x: tiny * (abs(s) + math.exp(-min(abs(x), 600)))][k]
        x1 = float(rng.normal() * 10 ** rng.uniform(-2, 2))
        if rng.random() < .1:
            x1 = c
        x2 = x1 + float(rng.choice([-1, 1])) * float(10 ** rng.uniform(-2, 1))
        with mon.case('zero', i, kind=k, c=c, s=s, x1=x1, x2=x2, tiny=tiny):
            ev = []

            def g(x, *extra):
                ev.append(x)
                mon.check(extra == kw.get('args', ()), 'extra arguments are passed on', got=extra)
                return f(x)
            kw = {}
            if rng.random() < .3:
                kw['args'] = (1, 'q')
            if rng.random() < .3:
                kw['vals'] = (f(x1), f(x2))
            if rng.random() < .3:
                kw['maxtries'] = int(rng.integers(1, 30))
            if rng.random() < .3:
                kw['expand'] = float(rng.uniform(1.1, 3))
            tries, fac = kw.get('maxtries', 50), kw.get('expand', 1.6)
            try:
                a, b = zbracket(g, x1, x2, **kw)
            except RuntimeError:
                # the same search, by its definition
                p, q, fp, fq = x1, x2, f(x1), f(x2)
                for _ in range(tries + 1):
                    if fp < 0 < fq or fq < 0 < fp:
                        mon.violate('a bracket within the allowed expansions was missed', bracket=(p, q))
                        break
                    if abs(fp) < abs(fq):
                        p += fac * (p - q)
                        fp = f(p)
                    else:
                        q += fac * (q - p)
                        fq = f(q)
                mon.count('failed brackets')
            else:
                mon.check(min(f(a), f(b)) < 0 < max(f(a), f(b)), 'the function changes sign over the bracket', got=(a, b))
                mon.check(min(a, b) <= min(x1, x2) and max(a, b) >= max(x1, x2), 'the bracket holds the start')
                mon.check((x2 > x1) == (b > a), 'the bracket keeps its orientation')
                mon.count('brackets')
                if (a, b) != (x1, x2):
                    mon.hit('z', i)
                elif f(x1) * f(x2) < 0 and tiny == 1:
                    mon.check(len(ev) <= 2, 'a bracket is returned as it is')
            mon.check(len(ev) <= tries + (0 if 'vals' in kw else 2), 'the number of expansions is limited', evaluations=len(ev))
            mon.count('evaluations', len(ev))
            mon.raises(ValueError, lambda: zbracket(f, x1, x1), 'an empty interval')

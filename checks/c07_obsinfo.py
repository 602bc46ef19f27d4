"""C07: observed information matrices and likelihood-based step sizes."""
import numpy as np

MODES = ['plain', 'poison']
RULE = ('log likelihoods with known maximum and Hessian (quadratic forms, quadratic plus quartic, Poisson, exponential '
        'and log-cosh families, with random offsets, scales and correlations) in 1 to 6 dimensions, plus ones not at '
        'their maximum, flat, or raising; non-trivial: a matrix with off-diagonal terms was compared')
ASSUMPTIONS = ['the log likelihood is finite in the neighbourhood explored (a few times the steps around the maximum)']
CASE_CPU = 60


def minimums(tier):
    return {'matrices compared': 500, 'step vectors compared': 500, 'failures signalled': 100, 'repeated': 200, 'integer parameters': 30, 'evaluations observed': 20000}


def family(rng):
    """(name, loglike, maximum, information, natural scales)"""
    n = int(rng.choice([1, 2, 2, 3, 4, 6, 11]))
    kind = ['quadratic', 'quartic', 'poisson', 'logcosh', 'gauss scale'][int(rng.integers(5))]
    mu = rng.normal(size=n) * 10 ** rng.uniform(-2, 2)
    if rng.random() < .15:
        mu = np.round(mu)
    off = float(rng.choice([0., 10., -300., 1e4, -1e4]))
    s = 10 ** rng.uniform(-2, 2, n)
    B = rng.normal(size=(n, n))
    R = B @ B.T + n * np.eye(n)
    d = np.sqrt(np.diag(R))
    R = R / d[:, None] / d[None, :]
    A = R / s[:, None] / s[None, :]
    if kind == 'quadratic':
        def f(x):
            z = (x - mu) / s
            return off - .5 * float(z @ R @ z)
        return kind, f, mu, A, s
    if kind == 'quartic':
        c = rng.uniform(0, .08, n)

        def f(x):
            z = (x - mu) / s
            return off - .5 * float(z @ R @ z) - float(np.sum(c * z ** 4))
        return kind, f, mu, A, s
    if kind == 'poisson':
        cnt = rng.integers(20, 400, n).astype(float)
        T = rng.uniform(.5, 5, n)
        mle = cnt / T

        def f(x):
            return off + float(np.sum(cnt * np.log(x / mle) - (x - mle) * T))
        return kind, f, mle, np.diag(cnt / mle ** 2), mle / np.sqrt(cnt)
    if kind == 'logcosh':
        k = rng.uniform(.3, 1., n)

        def f(x):
            z = (x - mu) / s
            return off - .5 * float(z @ R @ z) - float(np.sum(np.log(np.cosh(k * z))))
        return kind, f, mu, A + np.diag(k ** 2 / s ** 2), s / np.sqrt(1 + k ** 2)
    # normal sample, mean and log sigma (+ further independent quadratic terms)
    n = 2
    N, m0, s0 = float(rng.integers(20, 500)), float(rng.normal()), float(10 ** rng.uniform(-2, 2))

    def f(x):
        r = np.exp(-2 * (x[1] - np.log(s0)))
        return off - N * (x[1] - np.log(s0)) - .5 * N * r * (1 + ((x[0] - m0) / s0) ** 2) + .5 * N
    return kind, f, np.array([m0, np.log(s0)]), np.diag([N / s0 ** 2, 2 * N]), np.array([s0, .7]) / np.sqrt(N)


class Boom(Exception):
    pass


def run(mon):
    from inference.deriv import dllsteps, obsinfo

    def watched(f, log):
        def g(x):
            log.append(np.array(x, dtype=float))
            return f(x)
        return g

    for i, rng in mon.cases('steps', 800, 40000):
        kind, f, mle, info, s = family(rng)
        n = len(mle)
        dll = float(rng.choice([.02, .5, 1., 1., 2., 4., 9.]))
        tol = float(rng.choice([.01, .01, .001, .1]))
        guess = s * 10 ** rng.uniform(-.7, .5, n)
        form = int(rng.integers(3))
        with mon.case('steps', i, family=kind, n=n, dll=dll, tol=tol, mle=mle, guess=guess):
            log = []
            g = watched(f, log)
            m, gu = [(np.array(v), list(v), tuple(v))[form] for v in (mle, guess)]
            if np.all(mle == np.round(mle)):
                m = mle.astype(int) if form == 0 else [int(v) for v in mle]
                mon.count('integer parameters')
            kw = {} if rng.random() < .4 else dict(maxll=f(mle))
            if rng.random() < .5 or dll != 1.:
                kw['dll'] = dll
            else:
                dll = 1.
            if rng.random() < .8:
                kw['tol'] = tol
            else:
                tol = .01
            unchanged = lambda: (np.array_equal(np.array(m, float), mle) and np.array_equal(np.array(gu, float), guess))
            try:
                d = np.array(dllsteps(g, m, gu, **kw))
            except RuntimeError:
                # a fixed-slope iteration may not converge from a large first step
                mon.check(np.any(guess / s > .5), 'the search succeeds from a sensible guess', guess=guess / s)
                mon.check(unchanged(), 'the arguments are left as they were when it fails')
                mon.count('searches given up')
                continue
            mon.check(d.shape == (n,), 'one step per parameter')
            mx = f(mle)
            for k in range(n):
                x = mle.copy()
                x[k] += d[k]
                mon.close(mx - f(x), dll, 'each step lowers the log likelihood by the amount asked for', rtol=1e-9,
                          atol=tol * dll * (1 + 1e-6) + 1e-9 * abs(mx), parameter=k, step=d[k])
            for x in log:
                if not mon.check(np.sum(x != mle) <= 1, 'one parameter at a time is varied', x=x):
                    break
            mon.check(unchanged(), 'the arguments are left as they were')
            mon.count('step vectors compared')
            mon.count('evaluations observed', len(log))
            mon.seen('families', kind + str(n))
            mon.hit('s', kind, n, i)

    for i, rng in mon.cases('information', 800, 40000):
        kind, f, mle, info, s = family(rng)
        n = len(mle)
        niter = int(rng.choice([0, 1, 2, 2, 3]))
        h = s * 10 ** rng.uniform(-.5, .1, n)
        if kind == 'gauss scale' or kind == 'poisson':
            h = s * 10 ** rng.uniform(-.7, -.2, n)
        form = int(rng.integers(3))
        with mon.case('information', i, family=kind, n=n, niter=niter, mle=mle, steps=h):
            log = []
            g = watched(f, log)
            m, hh = [(np.array(v), list(v), tuple(v))[form] for v in (mle, h)]
            if np.all(mle == np.round(mle)):
                m = mle.astype(int) if form == 0 else [int(v) for v in mle]
                mon.count('integer parameters')
            kw = {} if rng.random() < .4 else dict(maxll=f(mle))
            if niter != 2 or rng.random() < .5:
                kw['niter'] = niter
            got, err = obsinfo(g, m, hh, **kw)
            mon.check(got.shape == (n, n) and err.shape == (n, n), 'a square matrix and its errors')
            mon.check(np.allclose(got, got.T, rtol=1e-10, atol=1e-12 * np.abs(got).max()) and np.allclose(err, err.T, rtol=1e-6, atol=1e-10 * np.abs(got).max()), 'the matrix is symmetric')
            sc = 1 / np.sqrt(np.outer(np.diag(info), np.diag(info)))
            # in units of the peak's widths; roundoff of differences of loglike over the squared smallest step
            e = (got - info) * sc
            u = np.sqrt(np.diag(info))
            hs = np.minimum(h * u, 1.)
            rnd = 60 * 2.3e-16 * (1 + abs(f(mle)) + np.max(np.abs(mle) * u)) * 4. ** niter / np.minimum.outer(hs, hs) ** 2
            if kind == 'quadratic':
                tol = rnd + 1e-12
            elif niter == 0:
                tol = rnd + {'quartic': 1.5, 'poisson': .6, 'logcosh': .8, 'gauss scale': 1.5}[kind]
            elif kind == 'quartic':
                tol = rnd + 1e-12
            else:
                # the estimate comes with an error, which is itself an estimate
                tol = rnd + 20 * err * sc + {1: .02, 2: 4e-3, 3: 2e-3}[niter]
            mon.check(np.all(np.abs(e) <= tol), 'the information matrix is minus the Hessian', got=got, want=info,
                      err=err, worst=float(np.max(np.abs(e) - tol)))
            if niter == 0:
                mon.check(np.all(err == 0), 'no error estimate without extrapolation')
            else:
                mon.check(np.all(err >= 0) and np.all(err * sc < .5 + rnd), 'error estimates are sensible', err=err * sc)
            # points used are balanced around the maximum, so that odd terms cancel
            mon.check(len(log) <= (niter + 1) * n * (n + 1) + 1, 'no more evaluations than the differences need', n=len(log))
            mon.check(np.array_equal(np.array(m, float), mle) and np.array_equal(np.array(hh, float), h),
                      'the arguments are left as they were')
            mon.count('matrices compared')
            mon.count('evaluations observed', len(log))
            if n > 1:
                mon.hit('i', kind, n, i)
            mon.sample(family=kind, worst=float(np.abs(e).max()), evaluations=len(log))
            # permuting the parameters permutes the matrix
            if n > 1 and rng.random() < .4 and kind in ('quadratic', 'quartic', 'logcosh'):
                p = rng.permutation(n)

                def fp(y):
                    x = np.empty(n)
                    x[p] = y
                    return f(x)
                g2, e2 = obsinfo(fp, mle[p], h[p], niter=niter)
                mon.check(np.all(np.abs(g2 - got[np.ix_(p, p)]) * sc[np.ix_(p, p)] <= 2 * rnd.max() + 1e-9),
                          'permuting the parameters permutes the matrix')

    for i, rng in mon.cases('chain', 200, 8000):
        kind, f, mle, info, s = family(rng)
        n = len(mle)
        with mon.case('chain', i, family=kind, n=n):
            d = dllsteps(f, mle, s * 10 ** rng.uniform(-.5, .3, n), dll=.5 if kind in ('quartic', 'logcosh', 'quadratic') else .1)
            got, err = obsinfo(f, mle, d)
            sc = 1 / np.sqrt(np.outer(np.diag(info), np.diag(info)))
            mon.check(np.all(np.abs(got - info) * sc <= .02 + 20 * err * sc + 1e-9 * (1 + abs(f(mle)))),
                      'steps found from the likelihood serve for its information', worst=float(np.max(np.abs(got - info) * sc)))
            mon.count('matrices compared')

    for i, rng in mon.cases('side by side', 60, 1500):
        # results already returned stay, and the same question has the same answer, whatever was asked in between
        with mon.case('side by side', i):
            kept = []
            for _ in range(3):
                kind, f, mle, info, s = family(rng)
                h = s * 10 ** rng.uniform(-.6, -.2, len(mle))
                niter = int(rng.integers(0, 4))
                q = lambda f=f, mle=mle, h=h, niter=niter: obsinfo(f, mle, h, niter=niter)
                d = lambda f=f, mle=mle, h=h: (dllsteps(f, mle, h, dll=.1),) * 2
                for job in (q, d):
                    r = job()
                    kept.append((job, r, [np.array(v) for v in r]))
            for k in rng.permutation(len(kept)):
                job, r, c = kept[k]
                again = job()
                mon.check(all(np.array_equal(a, b) for a, b in zip(again, c)), 'the same question has the same answer')
                mon.check(all(np.array_equal(a, b) for a, b in zip(r, c)), 'results already returned stay')
                mon.count('repeated')
            # re-entrant: a log likelihood that itself asks for an information matrix
            inner = []

            def g(x):
                inner.append(obsinfo(f, mle, h)[0])
                return f(x)
            a, b = obsinfo(g, mle, h, niter=1), obsinfo(f, mle, h, niter=1)
            mon.check(np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]), 'calls within calls do not disturb')
            mon.check(all(np.array_equal(v, inner[0]) for v in inner), 'nor are they disturbed')
            mon.hit('side', i)

    for i, rng in mon.cases('failures', 240, 4000):
        n = int(rng.integers(1, 5))
        mode = ['uphill', 'flat', 'raise', 'nan', 'budget'][int(rng.integers(5))]
        k = int(rng.integers(n))
        mu = rng.normal(size=n)
        with mon.case('failures', i, n=n, mode=mode, parameter=k):
            calls = [0]
            stop = int(rng.integers(0, 2))

            def f(x):
                calls[0] += 1
                z = x - mu
                v = -.5 * float(z @ z)
                if mode == 'uphill':
                    v += 3. * z[k]
                elif mode == 'flat':
                    v += .5 * z[k] ** 2
                elif mode == 'raise' and calls[0] > stop:
                    raise Boom
                elif mode == 'nan' and z[k] != 0:
                    v = float('nan')
                return v
            m, gu = mu.copy(), np.ones(n) * .5
            if mode == 'budget':
                def f2(x):
                    z = x - mu
                    return -float(np.sum(np.abs(z) ** .05)) * 20
                fail = lambda: dllsteps(f2, m, gu * 1e-3, dll=7., maxll=0., maxiter=1, tol=1e-10)
            else:
                fail = lambda: dllsteps(f, m, gu, maxll=0.)
            exc = Boom if mode == 'raise' else ValueError if mode == 'uphill' else RuntimeError
            mon.raises(exc, fail, 'a step search that fails says so')
            mon.check(np.array_equal(m, mu) and np.all(gu == .5), 'the arguments are left as they were when it fails',
                      mle=m, guess=gu)
            if mode == 'raise':
                calls[0], stop = 0, int(rng.integers(0, 2 * n))
                mon.raises(Boom, lambda: obsinfo(f, m, gu, maxll=0.), 'an error in the log likelihood is passed on')
                mon.check(np.array_equal(m, mu), 'the maximum is left as it was when the log likelihood fails', mle=m)
            mon.raises(ValueError, lambda: obsinfo(lambda x: -.5 * float(x @ x), m, gu, niter=-1 - int(rng.integers(3))),
                       'a negative number of extrapolations is refused')
            q, e = obsinfo(lambda x: -.5 * float((x - mu) @ (x - mu)), m, gu)
            mon.close(q, np.eye(n), 'the next matrix after a failure', rtol=1e-9, atol=1e-9)
            mon.count('failures signalled')
            mon.hit('f', mode, n, k, i)

    # where some of the differences are not numbers, no made-up number takes their place
    for i, rng in mon.cases('not a number', 300, 6000):
        n = int(rng.integers(1, 4))
        niter = int(rng.integers(0, 4))
        mu, A = rng.normal(size=n), rng.normal(size=(n, n))
        A = A @ A.T + n * np.eye(n)
        bad = set(rng.choice(4 * n * (niter + 1), int(rng.integers(1, 4))).tolist())
        every = rng.random() < .3
        k = int(rng.integers(n))
        with mon.case('not a number', i, n=n, niter=niter, bad=sorted(bad), every=every):
            calls = [0]

            def f(x):
                calls[0] += 1
                z = x - mu
                if (every and z[k] != 0) or (not every and calls[0] - 1 in bad):
                    return float('nan')
                return -.5 * float(z @ A @ z)
            got, err = obsinfo(f, mu, np.full(n, .2), maxll=0., niter=niter)
            d = np.abs(got - A)
            mon.check(np.all(np.isnan(got) | (d <= 1e-9 * np.abs(A).max())), 'an entry that cannot be found is not a number',
                      got=got, want=A, err=err)
            if every:
                mon.check(np.isnan(got[k, k]), 'an entry that cannot be found is not a number', got=got, parameter=k)
            mon.count('failures signalled')

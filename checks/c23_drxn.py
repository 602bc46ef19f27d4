"""C23: directions on the sphere with Fisher distributions: likelihoods, coincidences and fits against integrals over the sphere."""
import math

import numpy as np

RULE = ('random directions by angles in both units, by right ascension and declination, and by unit vector, uncertainties from a '
        'millionth of a radian to nearly none known, near and far from one another (poles, opposite and equal directions); '
        'non-trivial: three or more directions of different uncertainty')
ASSUMPTIONS = ['unit vectors have length one', 'sig between 1e-7 and 1.94 radians, or refused above 1.96', 'the extension is compiled here']
MODES = ['plain', 'poison', 'bounds', 'asan']
LEGACY = [('sandbox/drxn', 'fisher_coinc', ['fisher_coinc.pyf', 'fisher_coinc.f'])]
L = np.longdouble


def minimums(tier):
    return {'directions': 3000, 'regions': 1000, 'likelihoods': 2000, 'doublets': 500, 'triplets': 500, 'multiplets': 500, 'fits': 500,
            'refusals': 3000, 'integrals': 60, 'degrees': 800, 'opposite': 50, 'none known': 30}


def lsinhc(x):
    x = L(x)
    if x < L('.02'):
        return float(x * x / 6 - x ** 4 / 180 + x ** 6 / 2835)
    return float(x - np.log(L(2)) - np.log(x) + np.log1p(-np.exp(-2 * x)))


def vec(a, b):
    return np.array([math.cos(a) * math.cos(b), math.sin(a) * math.cos(b), math.sin(b)])


GL = np.polynomial.legendre.leggauss(160)


def sphere(k):
    """log of the average over the sphere of exp(sum of the vectors k . u)"""
    ph = np.arange(320) * (2 * math.pi / 320)
    z = GL[0]
    s = np.sqrt(1 - z * z)
    u = np.stack([np.outer(s, np.cos(ph)), np.outer(s, np.sin(ph)), np.outer(z, np.ones(320))])
    e = sum(np.tensordot(v, u, 1) for v in k)
    top = e.max()
    return top + math.log(float(GL[1] @ np.exp(e - top).mean(axis=1)) / 2)


def run(mon):
    from drxn import drxn as D

    def angles(rng):
        k = int(rng.integers(8))
        a, b = float(rng.uniform(-math.pi, 3 * math.pi)), float(math.asin(rng.uniform(-1, 1)))
        if k == 0:
            b = float(rng.choice([-1, 1])) * math.pi / 2
        elif k == 1:
            a = float(rng.choice([0., math.pi / 2, math.pi, -math.pi / 2]))
        elif k == 2:
            a, b = 0., 0.
        elif k == 3:
            b = 0.
        return a, b

    def spread(rng):
        """sig or kappa"""
        k = int(rng.integers(5))
        if k == 0:
            return dict(kappa=float(10 ** rng.uniform(-6, 1)))
        if k == 1:
            return dict(kappa=float(10 ** rng.uniform(-1, 8)))
        if k == 2:
            return dict(kappa=float(rng.choice([0., 1., 20., 5., .05, .04999, 19.9999, 250.])))
        if k == 3:
            return dict(sig=float(rng.uniform(.3, 1.94)))
        return dict(sig=float(10 ** rng.uniform(-7, -.5)))

    def make(rng, a=None, fisher=True):
        a, b = a or angles(rng)
        want = vec(a, b)
        s = spread(rng) if fisher else {}
        kind = int(rng.integers(3))
        deg = bool(rng.random() < .4)
        p, q = (math.degrees(a), math.degrees(b)) if deg else (a, b)
        t = dict(s)
        if deg and 'sig' in t:
            t['sig'] = math.degrees(t['sig'])
        if deg:
            mon.count('degrees')
            t['deg'] = True
        if kind == 0:
            t.update(lng=p, lat=q)
        elif kind == 1:
            t.update(ra=p, dec=q)
        else:
            t.update(uvec=want.copy())
        mon.count('directions')
        d = (D.FDirection if fisher else D.Direction)(**t)
        mon.check(np.shape(d.uvec) == (3,) and np.allclose(d.uvec, want, rtol=0, atol=4e-15), 'unit vector of the direction', got=d.uvec, want=want, call=t)
        ang = (d.long, d.lat, d.ra, d.dec)
        exp = ((a, b, None, None), (None, None, a, b), (None,) * 4)[kind]
        mon.check(all((g is None) == (w is None) and (w is None or abs(g - w) <= 1e-14 * (1 + abs(w))) for g, w in zip(ang, exp)),
                  'angles in radians, of the kind given', got=ang, want=exp, call=t)
        if fisher:
            if 'kappa' in s:
                mon.check(d.kappa == s['kappa'] and d.sig is None, 'the concentration given is used', got=d.kappa, want=s['kappa'])
                if s['kappa'] == 0:
                    mon.count('none known')
            else:
                mon.count('regions')
                mon.check(abs(d.sig - s['sig']) <= 1e-14 * s['sig'], 'sig is kept in radians', got=d.sig, want=s['sig'])
                k = d.kappa
                mon.check(k > 0 and math.isfinite(k), 'a concentration is found', got=k, sig=s['sig'])
                prob = math.expm1(-2 * k * math.sin(s['sig'] / 2) ** 2) / math.expm1(-2 * k)
                mon.check(abs(prob - .683) < 2e-7, 'the region of radius sig holds 68.3%', got=prob, sig=s['sig'], kappa=k, call=t)
            str(d)
        return d, want

    for i, rng in mon.cases('single', 1200, 20000):
        with mon.case('single', i):
            f, u = make(rng)
            mon.note(kappa=float(f.kappa), uvec=u)
            k = f.kappa
            const = lsinhc(k) + math.log(4 * math.pi)
            for _ in range(3):
                base = angles(rng)
                a, b = base
                if rng.random() < .4:     # close by
                    v = u + rng.normal(size=3) / math.sqrt(k + 1)
                    v = v / np.linalg.norm(v)
                    a, b = math.atan2(v[1], v[0]), math.atan2(v[2], math.hypot(v[0], v[1]))
                w = vec(a, b)
                g, _w = make(rng, (a, b), fisher=bool(rng.random() < .5))
                call = [dict(drxn=g), dict(lng=a, lat=b), dict(ra=a, dec=b), dict(uvec=w)][int(rng.integers(4))]
                mon.count('likelihoods')
                r = f.llike(**call)
                mu = float(np.dot(u.astype(L), w.astype(L)))
                tol = 1e-12 * (1 + const) + k * 3e-15
                mon.check(np.ndim(r) == 0 and abs(float(r) - (k * mu - const)) <= tol, 'llike: logarithm of the Fisher density', got=r, want=k * mu - const,
                          call=sorted(call), at=w)
                for x, y in ((f, g), (g, f)):
                    m = x * y
                    mon.check(np.ndim(m) == 0 and abs(m - mu) < 2e-15 * 4, 'product: cosine of the angle', got=m, want=mu)
            # normalized over the sphere
            if k < 30:
                mon.check(abs(math.exp(sphere([k * u]) - (f.const - math.log(4 * math.pi))) - 1) < 1e-9, 'the density is normalized', kappa=k)
            a, b = angles(rng)
            v = vec(a, b)
            s = dict(kappa=2.)
            g = D.Direction(lng=a, lat=b)
            for what, bad in (
                    ('two kinds', lambda: D.Direction(lng=a, lat=b, ra=a, dec=b)), ('two kinds', lambda: D.Direction(lng=a, lat=b, dec=b)),
                    ('two kinds', lambda: D.Direction(lng=a, lat=b, uvec=v)), ('two kinds', lambda: D.FDirection(ra=a, dec=b, uvec=v, **s)),
                    ('two kinds', lambda: D.Direction(ra=a, dec=b, lat=0.)), ('two kinds', lambda: D.Direction(uvec=v, dec=0.)),
                    ('half a direction', lambda: D.Direction(lng=a)), ('half a direction', lambda: D.FDirection(dec=a, **s)),
                    ('half a direction', lambda: D.Direction(lng=a, dec=b)), ('no direction', lambda: D.Direction()), ('no direction', lambda: D.FDirection(**s)),
                    ('no uncertainty', lambda: D.FDirection(lng=a, lat=b)), ('two uncertainties', lambda: D.FDirection(sig=.1, lng=a, lat=b, kappa=3.)),
                    ('a region beyond all', lambda: D.FDirection(sig=float(rng.uniform(1.96, 3.1)), lng=a, lat=b)),
                    ('a region beyond all', lambda: D.FDirection(sig=float(rng.uniform(115, 175)), ra=a, dec=b, deg=True)),
                    ('two kinds', lambda: f.llike(g, lng=a, lat=b)), ('two kinds', lambda: f.llike(g, uvec=v)), ('two kinds', lambda: f.llike(g, lat=0.)),
                    ('two kinds', lambda: f.llike(lng=a, lat=b, uvec=v)), ('two kinds', lambda: f.llike(lng=a, lat=b, ra=a, dec=b)),
                    ('two kinds', lambda: f.llike(ra=a, dec=b, uvec=v)), ('two kinds', lambda: f.llike(uvec=v, lng=a)),
                    ('no direction', lambda: f.llike()), ('half a direction', lambda: f.llike(ra=a)), ('half a direction', lambda: f.llike(lng=a, dec=b))):
                mon.count('refusals')
                mon.raises(ValueError, bad, 'refused: ' + what)
            # every combination of ways to give a direction that is not one of the ways
            if i % 5 == 0:
                have = dict(lng=a, lat=b, ra=0. * a, dec=b, uvec=v, drxn=g)
                for bits in range(1, 64):
                    call = {n: have[n] for j, n in enumerate(('lng', 'lat', 'ra', 'dec', 'uvec', 'drxn')) if bits >> j & 1}
                    if set(call) in ({'lng', 'lat'}, {'ra', 'dec'}, {'uvec'}, {'drxn'}):
                        continue
                    mon.count('refusals')
                    mon.raises(ValueError, lambda: f.llike(**call), 'refused: a direction in more than one way or in part', call=sorted(call))
                    if 'drxn' not in call:
                        mon.count('refusals', 2)
                        mon.raises(ValueError, lambda: D.Direction(**call), 'refused: a direction in more than one way or in part', call=sorted(call))
                        mon.raises(ValueError, lambda: D.FDirection(kappa=2., **call), 'refused: a direction in more than one way or in part', call=sorted(call))

    for i, rng in mon.cases('several', 1000, 20000):
        with mon.case('several', i):
            n = int(rng.choice([2, 2, 3, 3, 4, 5, int(rng.integers(6, 30))]))
            near = rng.random() < .5
            a0 = angles(rng)
            ds = []
            for j in range(n):
                a = angles(rng)
                if near:
                    a = (a0[0] + float(rng.normal()) * .05, a0[1] + float(rng.normal()) * .05)
                elif j and rng.random() < .2:
                    a = (a0[0] + math.pi, -a0[1])
                    mon.count('opposite')
                ds.append(make(rng, a)[0] if j else make(rng, a0)[0])
            if n > 2:
                mon.hit(i)
            K = np.array([d.kappa for d in ds])
            U = np.array([d.uvec for d in ds])
            mon.note(kappas=K, uvecs=U)
            tot = (K.astype(L)[:, None] * U.astype(L)).sum(axis=0)
            R = float(np.sqrt((tot ** 2).sum()))
            noise = 1e-15 * K.sum() * 4
            want = lsinhc(R) - sum(lsinhc(k) for k in K)
            tol = 1e-12 * (n + 1) * (1 + math.log1p(K.max())) + noise * 2
            res = []
            if n == 2:
                mon.count('doublets')
                res += [('doublet_lbf', D.doublet_lbf(*ds)), ('doublet_lbf', D.doublet_lbf(*ds[::-1]))]
            if n == 3:
                mon.count('triplets')
                res += [('triplet_lbf', D.triplet_lbf(*[ds[j] for j in rng.permutation(3)]))]
            mon.count('multiplets')
            res += [('multiplet_lbf', D.multiplet_lbf(ds)), ('multiplet_lbf', D.multiplet_lbf(tuple(ds[j] for j in rng.permutation(n))))]
            for name, r in res:
                mon.check(np.ndim(r) == 0 and abs(float(r) - want) <= tol, name + ': log Bayes factor for a common direction', got=r, want=want, n=n)
            if K.max() < 40 and K.sum() < 60:
                mon.count('integrals')
                q = sphere([k * u for k, u in zip(K, U)]) - sum(sphere([k * u]) for k, u in zip(K, U))
                for name, r in res:
                    mon.check(abs(float(r) - q) < 1e-8, name + ': ratio of the integrals over the sphere', got=r, want=q, n=n)
            mon.count('fits')
            lml = D.fisher_lml(ds)
            mon.check(abs(lml - (K.sum() - R)) <= noise * 3 + 1e-14, 'fisher_lml: loss of likelihood at the best common direction', got=lml, want=K.sum() - R)
            if R < 1e-6 * K.sum() or R == 0:
                mon.count('no best direction')
                continue
            r = D.fisher_fit(ds if rng.random() < .5 else tuple(ds))
            mon.check(isinstance(r, tuple) and len(r) == 2, 'fisher_fit: likelihood and direction')
            lml2, best = r
            mon.check(abs(lml2 - (K.sum() - R)) <= noise * 3 + 1e-14, 'fisher_fit: the likelihood', got=lml2, want=K.sum() - R)
            mon.check(abs(best.kappa - R) <= noise + 1e-13 * R and np.allclose(best.uvec, (tot / R).astype(float), atol=1e-14 + noise / R, rtol=0),
                      'fisher_fit: best direction and its concentration', got=(best.kappa, best.uvec), want=(R, (tot / R).astype(float)))
            at = sum(d.llike(best) for d in ds)
            ideal = sum(d.llike(d) for d in ds)
            mon.check(abs((ideal - at) - lml2) <= noise * 6 + 1e-12 * (1 + abs(ideal)), 'fisher_fit: the likelihood lost at the best direction', got=lml2, want=ideal - at)
            for _ in range(3):
                v = best.uvec + rng.normal(size=3) * 10 ** float(rng.uniform(-4, 0))
                v = v / np.linalg.norm(v)
                mon.check(sum(d.llike(uvec=v) for d in ds) <= at + noise * 6 + 1e-12 * (1 + abs(at)), 'fisher_fit: no direction is better', at=v)

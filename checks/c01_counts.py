"""C01: on/off signal-count probabilities and the signal-rate posterior."""
import numpy as np
from scipy.integrate import quad

from checks import onoff_ref as R

MODES = ['plain', 'poison']
RULE = ('random on/off problems (0..2000 counts, exposures over 10 decades, zero-count, deficit and equal-exposure '
        'corners) with signal rates from 0 to the far tail, queried in random order and interleaved so that cached '
        'state is shared between problems; non-trivial: at least one on-source count and a positive signal rate')
ASSUMPTIONS = ['reference: exact rational arithmetic up to 120 counts, 80-bit log recursion above',
               'densities below 1e-12 of the peak are compared in absolute terms only']


def minimums(tier):
    return {'density compared': 3000 if tier == 'quick' else 20000, 'exact coefficient sets': 200,
            'normalisations': 100,
            'kinds of numbers': 1000, 'related data sets': 1000, 'long arrays': 1000}


def run(mon):
    from inference.count import onoff
    from inference.count.onoff import OnOff, sigctp, psigc

    for i, rng in mon.cases('problem', 2400, 30000):
        prob = R.gen_problem(rng)
        n_on, t_on, n_off, t_off = prob
        with mon.case('problem', i, data=prob):
            want, exact = R.count_probs(*prob)
            c = sigctp(*prob)
            mon.count('exact coefficient sets', int(exact))
            mon.check(c.shape == (n_on + 1,), 'one probability per possible signal count', shape=c.shape)
            mon.check(np.all(c >= 0) and np.all(np.isfinite(c)), 'probabilities are finite and non-negative')
            mon.close(c.sum(), 1., 'signal-count probabilities sum to one', rtol=1e-9)
            mon.close(c, want, 'signal-count probabilities', rtol=1e-8, atol=1e-250)
            oo = OnOff(*prob)
            # the order of the first queries decides who fills the cache
            svals = np.array([R.gen_signal(rng, prob) for _ in range(5)])
            peak = max(np.exp(R.log_poisson_mix(s, t_on, want))
                       for s in [max(n_on / t_on - n_off / t_off, 0.), 0., *svals.tolist(),
                                 *(np.linspace(0, (n_on + 3) / t_on, 60))])
            ops = ['pnsig', 'pn', 'vec', 'scalar', 'mut', 'int', 'again', 'far', 'kinds', 'kin', 'kin', 'long'][:12 if n_on < 500 else 9]
            kin = [(q, OnOff(*q)) for q in R.relatives(rng, prob)]
            rng.shuffle(ops)
            ref = np.exp([R.log_poisson_mix(s, t_on, want) for s in svals])
            mon.note(signals=svals.tolist(), ops=ops)
            for op in ops:
                if op == 'pnsig':
                    mon.close(oo.pnsig(), want, 'pnsig() gives the probabilities', rtol=1e-8, atol=1e-250)
                elif op == 'pn':
                    for n in {0, n_on, int(rng.integers(0, n_on + 1))}:
                        mon.close(oo.pnsig(n), want[n], 'pnsig(n) is the probability of n', rtol=1e-8, atol=1e-250,
                                  n=n)
                    mon.raises(ValueError, lambda: oo.pnsig(n_on + 1), 'pnsig beyond the counts is refused')
                    mon.raises(ValueError, lambda: oo.pnsig(-1), 'negative pnsig is refused')
                elif op == 'vec':
                    v = oo.sigmp(svals)
                    mon.close(v, ref, 'posterior density (array)', rtol=1e-7, atol=1e-12 * peak)
                    mon.count('density compared', len(svals))
                elif op == 'scalar':
                    for s, r in zip(svals, ref):
                        v = oo.sigmp(float(s))
                        mon.close(v, r, 'posterior density (scalar)', rtol=1e-7, atol=1e-12 * peak, s=s)
                        mon.check(v >= 0, 'posterior density is non-negative', s=s, got=v)
                        mon.count('density compared')
                elif op == 'far':
                    far = 10. ** rng.uniform(2.7, 200, 3) / t_on
                    far[0] = 10. ** rng.uniform(2.7, 3.2) / t_on
                    r = np.exp([R.log_poisson_mix(s, t_on, want) for s in far])
                    mon.close(oo.sigmp(far), r, 'posterior density far above the data', rtol=1e-7, atol=1e-12 * peak, s=far)
                    mon.count('density compared', 3)
                elif op == 'mut':
                    p = oo.pnsig()
                    p *= 0.
                    p += 7.
                elif op == 'int':
                    si = np.array([0, 1, int(rng.integers(0, 50))])
                    r = np.exp([R.log_poisson_mix(float(s), t_on, want) for s in si])
                    mon.close(oo.sigmp(si), r, 'posterior density (integer array)', rtol=1e-7, atol=1e-12 * peak)
                elif op == 'kinds':
                    s = float(rng.choice([svals[0], np.float32(svals[1]), float(int(min(svals[2], 1e6)))]))
                    r = float(np.exp(R.log_poisson_mix(s, t_on, want)))
                    for x in R.scalars(s):
                        v = oo.sigmp(x)
                        mon.check(np.ndim(v) == 0, 'a single rate gives a single number', kind=str(type(x)))
                        mon.close(v, r, 'posterior density (kinds of numbers)', rtol=1e-7, atol=1e-12 * peak, s=s, kind=str(type(x)))
                    mon.close(np.ravel(oo.sigmp(np.array([s]))), [r], 'posterior density (array of one)', rtol=1e-7, atol=1e-12 * peak)
                    f = np.float32(svals)
                    mon.close(oo.sigmp(f), np.exp([R.log_poisson_mix(float(x), t_on, want) for x in f]), 'posterior density (single precision)',
                              rtol=1e-7, atol=1e-12 * peak)
                    for k in (np.int64(n_on), np.int32(0)):
                        mon.close(oo.pnsig(k), want[k], 'pnsig(n) for kinds of numbers', rtol=1e-8, atol=1e-250)
                    mon.count('kinds of numbers')
                elif op == 'kin':
                    q, o2 = kin[int(rng.integers(len(kin)))]
                    w2, _ = R.count_probs(*q)
                    if rng.random() < .5:
                        mon.close(o2.pnsig(), w2, 'probabilities of a related data set', rtol=1e-8, atol=1e-250, other=q)
                    s2 = np.array([R.gen_signal(rng, q) for _ in range(3)])
                    r2 = np.exp([R.log_poisson_mix(s, q[1], w2) for s in s2])
                    mon.close(o2.sigmp(s2), r2, 'density of a related data set', rtol=1e-7, atol=1e-12 * max(r2.max(), 1e-3 * q[1] / (q[0] + 1)),
                              other=q, s=s2)
                    mon.count('related data sets')
                elif op == 'long':
                    a, idx = R.long_array(rng, svals)
                    keep = a.copy()
                    v = oo.sigmp(a)
                    mon.check(v.shape == a.shape, 'as many densities as rates', got=v.shape, want=a.shape)
                    mon.close(v, ref[idx], 'posterior density (long array)', rtol=1e-7, atol=1e-12 * peak)
                    mon.check(np.array_equal(a, keep), 'the rates are left alone')
                    mon.count('long arrays')
                elif op == 'again':
                    a = oo.sigmp(svals)
                    other = OnOff(*R.gen_problem(rng, 200))
                    other.sigmp(R.gen_signal(rng, prob))
                    mon.check(np.array_equal(a, oo.sigmp(svals)), 'repeating a query gives the same answer')
            mon.close(psigc(float(svals[0]), t_on, c), ref[0], 'density from the coefficients', rtol=1e-7,
                      atol=1e-12 * peak)
            mon.seen('(n_on, n_off) pairs', '%d,%d' % (n_on, n_off))
            if n_on and np.any(svals > 0):
                mon.hit(prob, svals.tolist())
            mon.sample(signals=svals.tolist(), density=ref.tolist())

    for i, rng in mon.cases('normalisation', 400, 4000):
        prob = R.gen_problem(rng, 400)
        n_on, t_on, n_off, t_off = prob
        with mon.case('normalisation', i, data=prob):
            oo = OnOff(*prob)
            # every component is a gamma density of shape k+1 <= n_on+1: this upper limit leaves out < 1e-12
            hi = (n_on + 1 + 9 * np.sqrt(n_on + 1.) + 32) / t_on
            centre, width = R.s_scale(*prob)
            edges = np.unique(np.clip([0., centre - 6 * width, centre - 2 * width, centre, centre + 2 * width,
                                       centre + 6 * width, hi * .6, hi], 0, hi))
            edges = np.unique(np.concatenate([edges, np.linspace(0, hi, 13)]))
            x, w = np.polynomial.legendre.leggauss(16)
            tot, mean = 0., 0.
            for a, b in zip(edges[:-1], edges[1:]):
                s = .5 * (b - a) * x + .5 * (a + b)
                d = oo.sigmp(s)
                tot += .5 * (b - a) * np.dot(w, d)
                mean += .5 * (b - a) * np.dot(w, d * s)
            mon.close(tot, 1., 'posterior density integrates to one', rtol=2e-6)
            c, _ = R.count_probs(*prob)
            mon.close(mean, np.dot(np.arange(1, n_on + 2), c) / t_on, 'posterior mean of the signal rate', rtol=2e-6)
            mon.count('normalisations')
            if n_on:
                mon.hit('norm', prob)

    # The posterior (flat prior) and the marginal likelihood describe the same inference.
    for i, rng in mon.cases('posterior-vs-likelihood', 1200, 12000):
        prob = R.gen_problem(rng, 600)
        with mon.case('posterior-vs-likelihood', i, data=prob):
            oo = OnOff(*prob, cutoff=0.)
            centre, width = R.s_scale(*prob)
            s = np.abs(centre + width * rng.uniform(-4, 4, size=6))
            c, _ = R.count_probs(*prob)
            # keep to where neither side underflows (siglml announces that, sigmp goes to zero)
            top = max(R.log_like(x, *prob) for x in [*s, centre])
            ok = np.array([R.log_like(x, *prob) > top - 300 for x in s]) & (s * prob[1] < 650)
            s = s[ok]
            if len(s) >= 2:
                d = np.log(oo.sigmp(s)) - oo.siglml(s)
                mon.check(np.ptp(d) < 1e-6, 'posterior is proportional to the likelihood', spread=float(np.ptp(d)),
                          s=s)
                mon.count('proportionality')
                if prob[0]:
                    mon.hit('prop', prob)

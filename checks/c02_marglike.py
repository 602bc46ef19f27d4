"""C02: the marginal likelihood of the signal rate, its truncation bound, derivative, vector forms and error report."""
import numpy as np
from scipy.special import logsumexp

from checks import onoff_ref as R

MODES = ['plain', 'poison']
RULE = ('random on/off problems x signal rates (0, tiny, near the peak, far tail) x cutoffs (0 and 1e-12..0.3) x '
        'offsets (the advertised one, zero, perturbed); every value is bracketed by the sum of the terms the cutoff '
        'must keep and the full sum; non-trivial: positive counts and signal')
ASSUMPTIONS = ['reference: log-sum-exp of the defining series with scipy gammaln',
               'agreement to 1e-7 in the log (the log-gamma approximation used is good to about 2e-10)']
TOL = 1e-7


def minimums(tier):
    return {'values bracketed': 4000, 'error reports': 100, 'derivatives': 1500, 'truncated sums': 500, 'arrays with a bad element': 500,
            'related data sets': 1000}


def bracket(s, prob, cut):
    lt = R.log_terms(s, *prob)
    top = lt.max()
    hi = logsumexp(lt)
    keep = lt >= top + np.log(cut) if cut > 0 else np.ones(len(lt), bool)
    return logsumexp(lt[keep]), hi, top, lt, keep


def run(mon):
    from inference.count.onoff import OnOff, slmlike, vslmlike, slmliked, slml_offset, vslml_offset

    def gencut(rng):
        return 0. if rng.random() < .25 else float(10 ** rng.uniform(-12, -.5))

    for i, rng in mon.cases('siglml', 3000, 40000):
        prob = R.gen_problem(rng, 4000)
        n_on, t_on, n_off, t_off = prob
        cut = gencut(rng)
        svals = [R.gen_signal(rng, prob) for _ in range(5)]
        with mon.case('siglml', i, data=prob, cutoff=cut, signals=svals):
            oo = OnOff(*prob, cutoff=cut)
            off = slml_offset(*prob)
            mon.check(np.isfinite(off), 'the scale factor is finite', got=off)
            good, bad = [], []
            for s in svals:
                lo, hi, top, lt, keep = bracket(s, prob, cut)
                scaled = top - off
                mon.note(s=s)
                if s > 0 and abs(scaled) > 701:
                    mon.raises(ValueError, lambda: oo.siglml(s), 'under/overflow is reported')
                    v, nt, ierr = slmlike(s, *prob, off, cut)
                    mon.check(ierr != 0, 'under/overflow is flagged')
                    mon.check(slmliked(s, *prob, off, cut)[3] != 0, 'under/overflow is flagged with the derivative')
                    w = vslmlike(np.array([s]), [n_on], t_on, [n_off], t_off, np.array([off]), cut)
                    mon.check(abs(w[0] + off - top) <= TOL * max(1., abs(top) * 1e-3) + np.log(n_on + 1.) or w[0] != w[0],
                              'the vector form gives nothing misleading on under/overflow', got=w[0], want=top - off)
                    mon.count('error reports')
                    bad.append(s)
                    continue
                if s > 0 and abs(scaled) > 699:
                    continue
                tol = TOL + 1e-12 * abs(hi)
                v = oo.siglml(s)
                mon.check(lo - off - tol <= v <= hi - off + tol,
                          'scaled log likelihood lies between the kept terms and the full sum', got=v,
                          lo=lo - off, hi=hi - off)
                v2, nt, ierr = slmlike(s, *prob, off, cut)
                mon.check(ierr == 0, 'no error flag when the value is good', ierr=ierr)
                mon.check(1 <= nt <= n_on + 1, 'number of terms used', nt=nt)
                if s > 0:
                    # terms that underflow cannot be told from zero, and near-ties with the cutoff may fall either way
                    need = int(np.sum(keep & (lt - off > -690) & (lt - top > (np.log(cut) if cut else -1e9) + 1e-6)))
                    mon.check(nt >= need, 'no term above the cutoff is left out', nt=nt, need=need)
                mon.close(v2, v, 'method and function agree', rtol=1e-12, atol=1e-11)
                mon.count('values bracketed')
                if cut > 0 and not keep.all():
                    mon.count('truncated sums')
                good.append(s)
                if n_on and s > 0:
                    mon.hit(prob, s, cut)
            if not bad and n_on and good:
                # a rate beyond all others, so far out that every term underflows
                far = (2000. + 20 * (n_on + n_off)) / t_on + 10 * max(good)
                if abs(R.log_terms(far, *prob).max() - off) > 750:
                    bad.append(far)
            if good and bad:
                mixed = list(good)
                mixed.insert(int(rng.integers(len(mixed) + 1)), bad[int(rng.integers(len(bad)))])
                mon.note(mixed=mixed)
                mon.raises(ValueError, lambda: oo.siglml(np.array(mixed)), 'under/overflow of one element of an array is reported')
                mon.count('arrays with a bad element')
            if len(good) > 1:
                arr = oo.siglml(np.array(good))
                mon.close(arr, [oo.siglml(s) for s in good], 'array and scalar forms agree', rtol=1e-12, atol=1e-11)
                a, idx = R.long_array(rng, good)
                keepa = a.copy()
                mon.close(oo.siglml(a), arr[idx], 'long arrays', rtol=1e-12, atol=1e-11, n=len(a))
                mon.check(np.array_equal(a, keepa), 'the rates are left alone')
                for x in R.scalars(good[0]):
                    v = oo.siglml(x)
                    mon.check(np.ndim(v) == 0 and abs(v - arr[0]) <= 1e-11 + 1e-12 * abs(arr[0]), 'kinds of single numbers', kind=str(type(x)), got=v, want=arr[0])
                for q in R.relatives(rng, prob):
                    o2, s2 = OnOff(*q, cutoff=cut), R.gen_signal(rng, q)
                    lo, hi, top, lt, keep = bracket(s2, q, cut)
                    of2 = slml_offset(*q)
                    if s2 == 0 or abs(top - of2) < 699:
                        v = o2.siglml(s2)
                        tol = TOL + 1e-12 * abs(hi)
                        mon.check(lo - of2 - tol <= v <= hi - of2 + tol, 'the likelihood of a related data set', other=q, s=s2, got=v,
                                  lo=lo - of2, hi=hi - of2)
                        mon.count('related data sets')
                    mon.close(oo.siglml(good[0]), arr[0], 'a data set does not depend on another', rtol=1e-12, atol=1e-11)
                gi = np.array([int(min(s, 1e6)) for s in good])
                if all(x == 0 or abs(R.log_terms(float(x), *prob).max() - off) < 690 for x in gi):
                    mon.close(oo.siglml(gi), [oo.siglml(float(s)) for s in gi], 'integer arrays', rtol=1e-12)
                mon.sample(signals=good, scaled=arr.tolist())

    # The scale factor keeps the neighbourhood of the peak representable.
    for i, rng in mon.cases('scale', 1200, 12000):
        prob = R.gen_problem(rng, 20000)
        with mon.case('scale', i, data=prob):
            centre, width = R.s_scale(*prob)
            oo = OnOff(*prob)
            s = np.concatenate([[0.], np.geomspace(1e-3, 1, 8) * (centre + width), centre + width * np.linspace(-.9, 3, 9)])
            s = s[s >= 0]
            ref = np.array([R.log_like(x, *prob) for x in s])
            s = s[ref > ref.max() - 20]
            v = oo.siglml(s) if len(s) > 1 else np.array([oo.siglml(float(s[0]))])
            mon.check(np.all(np.isfinite(v)), 'finite near the peak')
            w = ref[ref > ref.max() - 20]
            mon.close(v - v[0], w - w[0], 'differences of the scaled log likelihood are those of the likelihood',
                      atol=1e-6 + 1e-5 * (prob[0] + 1), rtol=0)
            mon.count('peaks represented')
            if prob[0]:
                mon.hit('scale', prob)

    for i, rng in mon.cases('derivative', 4000, 60000):
        prob = R.gen_problem(rng, 2000)
        n_on, t_on, n_off, t_off = prob
        cut = gencut(rng)
        s = R.gen_signal(rng, prob)
        use = rng.integers(3)
        off = slml_offset(*prob)
        if use == 1:
            off = off + float(rng.normal() * 20)
        elif use == 2 and n_on + n_off < 60:
            off = 0.
        with mon.case('derivative', i, data=prob, cutoff=cut, s=s, offset=off):
            lo, hi, top, lt, keep = bracket(s, prob, cut)
            if s > 0 and abs(top - off) > 690:
                mon.count('derivative out of range')
            elif s == 0 and n_on + n_off == 0:
                mon.count('documented undefined derivative')
            else:
                v, d, nt, ierr = slmliked(s, *prob, off, cut)
                tol = TOL + 1e-12 * abs(hi)
                mon.check(ierr == 0, 'no error flag when the value is good')
                mon.check(1 <= nt <= n_on + 1, 'number of terms used', nt=nt)
                mon.check(lo - off - tol <= v <= hi - off + tol, 'scaled log likelihood (with derivative)', got=v,
                          lo=lo - off, hi=hi - off)
                v1, nt1, e1 = slmlike(s, *prob, off, cut)
                mon.close(v1, v, 'value with and without derivative', rtol=1e-12, atol=1e-12)
                if s == 0:
                    want = (t_on + t_off) * n_on / float(n_on + n_off) - t_on
                    mon.close(d, want, 'derivative at zero signal', rtol=1e-7, atol=1e-7 * (t_on + t_off))
                else:
                    w = np.exp(lt - hi)
                    k = np.arange(n_on + 1.)
                    g = k / s - t_on
                    want = float(np.dot(w, g))
                    absum = float(np.dot(w, np.abs(g)))
                    rest = ~keep
                    slack = float(np.dot(w[rest], np.abs(g[rest] - want))) * 2
                    mon.check(abs(d - want) <= slack + 1e-8 * absum, 'derivative of the log likelihood', got=d,
                              want=want, slack=slack)
                mon.count('derivatives')
                if n_on and s > 0:
                    mon.hit('d', prob, s, cut)

    for i, rng in mon.cases('vector', 800, 8000):
        nc = int(rng.integers(1, 9))
        t_on, t_off = R.gen_problem(rng)[1::2]
        n_on = rng.integers(0, 300, nc)
        n_off = rng.integers(0, 300, nc)
        cut = gencut(rng)
        with mon.case('vector', i, n_on=n_on, n_off=n_off, t=(t_on, t_off), cutoff=cut):
            off = vslml_offset(n_on, t_on, n_off, t_off)
            mon.close(off, [slml_offset(a, t_on, b, t_off) for a, b in zip(n_on, n_off)], 'channel scale factors', rtol=1e-12, atol=1e-11)
            s = np.array([abs(R.s_scale(int(a), t_on, int(b), t_off)[0]) for a, b in zip(n_on, n_off)])
            s = s * rng.uniform(.8, 1.2, nc) * (rng.random(nc) < .85)
            keepin, ref = s.copy(), []
            for x, a, b, o in zip(s, n_on, n_off, off):
                lo, hi, top, lt, keep = bracket(float(x), (int(a), t_on, int(b), t_off), cut)
                ref.append((lo - o, hi - o, top - o))
            v = vslmlike(s, n_on, t_on, n_off, t_off, off, cut)
            mon.check(np.array_equal(s, keepin), 'arguments are left alone')
            for j in range(nc):
                if abs(ref[j][2]) < 690:
                    mon.check(ref[j][0] - 1e-6 <= v[j] <= ref[j][1] + 1e-6, 'channel log likelihoods', channel=j,
                              got=v[j], bracket=ref[j])
                    mon.count('channels')
            mon.hit('v', s.tolist(), n_on.tolist(), n_off.tolist())

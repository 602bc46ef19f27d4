"""Reference values for the on/off (signal + background) problem, straight from the definitions, and the generator
of problems."""
from fractions import Fraction
from math import factorial

import numpy as np
from scipy.special import gammaln, logsumexp


def log_terms(s, n_on, t_on, n_off, t_off):
    """log of the terms of  L(s) = sum_k (s T)^k (N-k)! / ((n_on-k)! k!) exp(-s t_on),  T = t_on + t_off."""
    k = np.arange(n_on + 1, dtype=float)
    stt = s * (t_on + t_off)
    with np.errstate(divide='ignore', invalid='ignore'):
        klog = np.where(k == 0, 0., k * np.log(stt) if stt > 0 else -np.inf)
    return klog + gammaln(n_on + n_off - k + 1) - gammaln(n_on - k + 1) - gammaln(k + 1) - s * t_on


def log_like(s, *data):
    return logsumexp(log_terms(s, *data))


def count_probs(n_on, t_on, n_off, t_off):
    """P(i of the n_on counts are signal) proportional to (1+t_off/t_on)^i (N-i)!/(n_on-i)!, i = 0..n_on."""
    if n_on + n_off <= 120:
        r = 1 + Fraction(t_off) / Fraction(t_on)
        N = n_on + n_off
        w = [r ** i * Fraction(factorial(N - i), factorial(n_on - i)) for i in range(n_on + 1)]
        tot = sum(w)
        return np.array([float(x / tot) for x in w]), True
    i = np.arange(n_on + 1, dtype=np.longdouble)
    # ratios c_i/c_{i-1} = (1+t_off/t_on) (n_on-i+1)/(N-i+1), summed in extended precision logs
    r = np.log1p(np.longdouble(t_off) / np.longdouble(t_on))
    j = i[1:]
    steps = r + np.log((n_on - j + 1) / (n_on + n_off - j + 1))
    lw = np.concatenate([[np.longdouble(0)], np.cumsum(steps)])
    lw -= lw.max()
    w = np.exp(lw)
    return (w / w.sum()).astype(float), False


def log_poisson_mix(s, t_on, c):
    """log density  sum_i c_i t_on Pois(i; s t_on)"""
    i = np.arange(len(c), dtype=float)
    m = s * t_on
    if m == 0:
        return np.log(c[0] * t_on) if c[0] > 0 else -np.inf
    with np.errstate(divide='ignore'):
        return logsumexp(np.log(c) + i * np.log(m) - m - gammaln(i + 1)) + np.log(t_on)


def gen_problem(rng, big=2000):
    """(n_on, t_on, n_off, t_off), with the corners that matter: no counts, equal and extreme exposures, deficits."""
    def cts():
        u = rng.random()
        if u < .12:
            return 0
        if u < .3:
            return int(rng.integers(1, 5))
        if u < .65:
            return int(rng.integers(1, 60))
        if u < .9:
            return int(rng.integers(20, 400))
        return int(rng.integers(min(300, big // 2), big))
    n_on, n_off = cts(), cts()
    u = rng.random()
    if u < .3:
        t_on = t_off = float(10 ** rng.uniform(-2, 3))
    elif u < .8:
        t_on = float(10 ** rng.uniform(-2, 3))
        t_off = t_on * float(10 ** rng.uniform(-1.2, 1.2))
    elif u < .9:
        t_on, t_off = float(rng.integers(1, 20)), float(rng.integers(1, 20))
    else:
        t_on = float(10 ** rng.uniform(-5, 5))
        t_off = t_on * float(10 ** rng.uniform(-3, 3))
    return n_on, t_on, n_off, t_off


def s_scale(n_on, t_on, n_off, t_off):
    """Rough centre and width of the likelihood in s."""
    width = np.sqrt((n_on + 1.) / t_on ** 2 + (n_off + 1.) / t_off ** 2)
    width = min(width, (n_on + 5.) / t_on)
    centre = max(n_on / t_on - n_off / t_off, 0.)
    return centre, width


def gen_signal(rng, prob):
    centre, width = s_scale(*prob)
    u = rng.random()
    if u < .08:
        return 0.
    if u < .2:
        return float(10 ** rng.uniform(-12, -1)) / prob[1]
    if u < .75:
        return float(abs(centre + width * rng.normal() * 1.5))
    if u < .9:
        return float(abs(centre + width * rng.uniform(-8, 8)))
    return float(centre + width * 10 ** rng.uniform(0, 2))


def relatives(rng, prob):
    """Problems that differ from prob in one of the four numbers only"""
    n_on, t_on, n_off, t_off = prob
    out = [(n_on + int(rng.integers(1, 4)), t_on, n_off, t_off), (n_on, t_on * float(rng.uniform(1.1, 3)), n_off, t_off),
           (n_on, t_on, n_off + int(rng.integers(1, 4)), t_off), (n_on, t_on, n_off, t_off * float(rng.uniform(.3, .9))),
           (n_off, t_on, n_on, t_off), (n_on, t_off, n_off, t_on)]
    return [out[int(j)] for j in rng.permutation(len(out))[:int(rng.integers(1, 4))]]


def long_array(rng, svals):
    """The rates, many times over, in any order and memory layout; and the index of each"""
    n = int(rng.integers(6, 40)) if rng.random() < .7 else int(rng.integers(40, 3000))
    idx = rng.integers(len(svals), size=n)
    a = np.array(svals, float)[idx]
    r = rng.random()
    if r < .3:
        w = np.full(2 * n, 1e300)
        w[::2] = a
        a = w[::2]
    elif r < .5:
        a = a[::-1].copy()[::-1]
    return a, idx


def scalars(s):
    """The rate s as single numbers of several kinds that hold it exactly"""
    out = [float(s), np.float64(s), np.array(s)]
    if s == int(s) and abs(s) < 2 ** 31:
        out += [int(s), np.int32(int(s)), np.int64(int(s)), np.array(int(s))]
    if float(np.float32(s)) == s:
        out.append(np.float32(s))
    return out

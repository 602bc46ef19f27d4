"""C19: weighted populations, subsets with probability proportional to size, and sampled densities, with the real C of their core."""
import contextlib
import io
import itertools
import math

import numpy as np

RULE = ('random populations and densities; histories of samples, subsets by both methods, refusals, normal draws and restored generator '
        'states on several populations at once; non-trivial: a history in which a population changes the size and the method of its '
        'subsets and a generator state is restored; frequencies judged at odds below 1e-11 per test')
ASSUMPTIONS = ['weights are finite and non-negative', 'the generator is that of numpy.random (a Mersenne twister)',
               'largest inclusion probability at most .9, or one, and sizes for which the rejection method accepts one in a thousand draws',
               '_ppssampler.c is compiled with definitions of what Python 2 had, since the package does not build it']
MODES = ['plain', 'asan']
LEGACY = [('mc', '_ppssampler', ['_ppssampler.c', 'sampford.c', 'compact5table.c', 'randomkit.c'])]


def minimums(tier):
    return {'histories': 150, 'samples': 600, 'subsets': 900, 'refusals': 300, 'states restored': 300, 'frequencies': 200,
            'subset distributions': 60, 'certain members': 30, 'densities': 150, 'density samples': 150, 'pdf values': 10000,
            'descending distributions': 60, 'memory': 150, 'compiled refusals': 900}


def excess(seen, want):
    """How many sigmas the counts seen are from those wanted, by chi squared, rare ones together"""
    seen, want = np.asarray(seen, float), np.asarray(want, float)
    if np.any(seen[want == 0] > 0):
        return math.inf
    order = np.argsort(want)
    s, w = seen[order], want[order]
    k = int(np.searchsorted(w, 12.))
    while k and k < len(w) and w[:k].sum() < 12.:
        k += 1
    if k:
        s, w = np.append(s[k:], s[:k].sum()), np.append(w[k:], w[:k].sum())
    keep = w > 11
    s, w = s[keep], w[keep]
    d = len(w) - 1
    if d < 1:
        return 0.
    x = float(np.sum((s - w) ** 2 / w))
    return ((x / d) ** (1 / 3) - (1 - 2 / (9 * d))) / math.sqrt(2 / (9 * d))


SIGMAS = 7.


def same_state(a, b):
    return a[0] == b[0] and np.array_equal(a[1], b[1]) and a[2:] == b[2:]


def run(mon):
    import os
    import sys
    import inference
    sys.path.insert(0, os.path.join(os.path.dirname(inference.__file__), 'mc'))
    from inference.mc import Population, PWLinear
    from inference.mc.population import Population1D
    R = np.random

    def weights(rng, n):
        kind = str(rng.choice(['uniform', 'equal', 'wide', 'zeros', 'integers', 'power', 'tiny']))
        w = rng.uniform(.1, 1, n)
        if kind == 'equal':
            w = np.full(n, float(rng.uniform(.1, 9)))
        elif kind == 'wide':
            w = 10 ** rng.uniform(-5, 2, n)
        elif kind == 'zeros':
            w = w * (rng.random(n) < .6)
            w[int(rng.integers(n))] = .7
        elif kind == 'integers':
            w = rng.integers(1, 9, n)
        elif kind == 'power':
            w = np.arange(1., n + 1) ** -1.5
            rng.shuffle(w)
        elif kind == 'tiny':
            w = w * 1e-200
        if rng.random() < .2 and kind != 'integers':
            w = w / w.sum()
        return kind, w

    def items(rng, n):
        k = int(rng.integers(5))
        if k == 0:
            return None
        if k == 1:
            return ['item %d' % j for j in range(n)]
        if k == 2:
            return tuple((j, -j) for j in range(n))
        if k == 3:
            return np.round(rng.normal(size=n), 6) + np.arange(n) * 10
        return 'abcdefghijklmnopqrstuvwxyz'[:n] if n <= 26 else list(range(100, 100 + n))

    class Popn:
        def __init__(self, rng, small=False):
            self.n = n = int(rng.integers(1, 8)) if small or rng.random() < .6 else int(rng.integers(8, 200))
            self.equal = bool(rng.random() < .25)
            self.kind, w = ('equal', np.ones(n)) if self.equal else weights(rng, n)
            self.p = np.asarray(w, float) / np.sum(w)
            it = items(rng, n)
            if self.equal:
                arg = n if it is None else it
                self.make = lambda: Population(arg)
            else:
                given = w if rng.random() < .5 else w.tolist() if rng.random() < .5 else np.repeat(w, 2)[::2]
                self.given, self.copy = given, np.array(given)
                self.make = lambda: Population(it, given) if it is not None else Population(weights=given)
            self.items = list(range(n)) if it is None else list(it)
            self.at = {self.key(x): j for j, x in enumerate(self.items)}
            self.pop = self.make()
            self.methods = set()
            self.sizes = set()

        @staticmethod
        def key(x):
            return float(x) if isinstance(x, (float, np.floating)) else int(x) if isinstance(x, np.integer) else x

        def where(self, got, what):
            """indices of the items"""
            mon.require(all(self.key(x) in self.at for x in got), what + ': members of the population', got=got)
            return np.array([self.at[self.key(x)] for x in got], dtype=int)

        def allowed(self, k):
            return self.equal and k <= self.n or k == self.n or k * self.p.max() <= .9 and k <= 12 and self.accepted(k) > 1e-3

        def accepted(self, k):
            """the chance that Sampford's method accepts a draw"""
            lam = self.p / (1 - k * self.p)
            lam = lam / lam.sum()
            e = np.zeros(k)
            e[0] = 1.
            for x in lam:
                e[1:] += x * e[:-1]
            total = 0.
            for q, x in zip(self.p, lam):
                d = 1.
                for j in range(1, k):
                    d = max(e[j] - x * d, 0.)
                total += q * d
            return total * math.factorial(k - 1)

        def unchanged(self):
            if not self.equal:
                mon.check(np.array_equal(np.array(self.given), self.copy), 'weights given are unchanged')

    def ask(pop, op, k):
        return getattr(pop, op)(k)

    def good(P, op, k, got, what):
        mon.check(len(got) == k, what + ': as many as asked for', got=len(got), want=k)
        j = P.where(got, what)
        if not P.equal:
            if op == 'sample' or k < P.n:
                mon.check(np.all(P.p[j] > 0), what + ': nothing of weight zero', got=got)
        if op != 'sample':
            mon.check(len(set(j.tolist())) == len(j), what + ': each once', got=got)
        return j

    # -- memory in use does not grow with the number of draws ---------------------------------------------------------
    for i, rng in mon.cases('memory', 24 if mon.mode == 'plain' else 0, 120 if mon.mode == 'plain' else 0):
        with mon.case('memory', i):
            n = int(rng.integers(3000, 6000))
            w = rng.uniform(.5, 1.5, n)
            P, Q, E = Population(np.arange(n), w), Population(list(range(n)), w), Population(list(range(n)))
            k = int(rng.integers(2, 12))
            sizes = itertools.cycle([k, k + 1, k + 2])

            def whole():
                q = Population(P.items, w)
                q.sample(3)
                q.subset_pps(3)
                q.subset_pps5(4)
            for what, f in (('samples', lambda: P.sample(k)), ('subsets', lambda: P.subset_pps(k)), ('subsets by tables', lambda: P.subset_pps5(k)),
                            ('subsets of different sizes', lambda: P.subset_pps(next(sizes))),
                            ('subsets of different sizes by tables', lambda: Q.subset_pps5(next(sizes))),
                            ('subsets of equals', lambda: E.subset_pps(k)), ('subsets of equals by tables', lambda: E.subset_pps5(k)), ('populations', whole)):
                with contextlib.redirect_stdout(io.StringIO()):
                    mon.gives_back(f, 'draws give back the memory they use', draws=what, members=n)
                mon.count('memory')

    # -- the compiled sampler, used on its own ------------------------------------------------------------------------
    import _ppssampler as C
    for i, rng in mon.cases('compiled', 60, 1000):
        with mon.case('compiled', i):
            n = int(rng.integers(3, 40))
            w = rng.uniform(.5, 1.5, n)
            state = np.random.RandomState(int(rng.integers(2 ** 31))).get_state()[:3]
            C.set_rng_state(*state)
            for bad in ((state[0], state[1], -1), (state[0], state[1], 625), (state[0], state[1][:-1], 3), ('PCG64',) + state[1:]):
                mon.count('compiled refusals')
                mon.raises(ValueError, lambda: C.set_rng_state(*bad), 'refused: a state that no generator has', position=bad[2], length=len(bad[1]))
            now = C.get_rng_state()
            mon.check(now[0] == state[0] and np.array_equal(now[1], state[1]) and now[2] == state[2], 'the state stays as it is', got=now)
            S = C._ppssampler(w)
            steps = [('samplenr', ()), ('samplenr5', ()), ('prepratiotables', ()), ('prepratios', (2, w, w.sum()))]
            for name, args in [steps[j] for j in rng.permutation(4)]:
                mon.count('compiled refusals')
                mon.raises(ValueError, lambda: getattr(S, name)(*args), 'refused: before the weights are prepared', step=name)
            ind, ws, tot = S.prepwts(w)
            mon.check(np.array_equal(np.sort(ind), np.arange(n)) and np.array_equal(ws, w[ind]) and bool(np.all(np.diff(ws) <= 0)), 'sorted weights', got=ws)
            mon.check(abs(tot - w.sum()) <= 1e-12 * tot, 'total weight', got=tot)
            for name, args in [steps[j] for j in rng.permutation(3)] + [('prepratios', (0, ws, tot)), ('prepratios', (n, ws, tot)), ('prepratios', (1, ws[1:], tot))]:
                mon.count('compiled refusals')
                mon.raises(ValueError, lambda: getattr(S, name)(*args), 'refused: before the ratios are prepared, or for sizes that do not fit', step=name, args=args)
            k = int(rng.integers(1, n // 3 + 1))
            with np.errstate(all='ignore'):
                r = S.prepratios(k, ws, tot)
            q = (ws / tot) / (1 - k * ws / tot)
            mon.close(np.array(r), np.cumsum(q), 'cumulative ratios', rtol=1e-10)
            mon.raises(ValueError, S.samplenr5, 'refused: before the tables are prepared')
            ntry, j = S.samplenr()
            mon.check(ntry >= 1 and len(j) == k and len(set(j.tolist())) == k and 0 <= j.min() <= j.max() < n, 'a subset', got=j)
            S.prepratiotables()
            ntry, j = S.samplenr5()
            mon.check(ntry >= 1 and len(j) == k and len(set(j.tolist())) == k and 0 <= j.min() <= j.max() < n, 'a subset by tables', got=j)
            m = int(rng.integers(1, n + 1))
            j = C.equalprobi(m, n, np.zeros(n + int(rng.integers(0, 3)), np.intc))
            mon.check(len(j) == m and len(set(j.tolist())) == m and 0 <= j.min() <= j.max() < n, 'integers without replacement', got=j)
            pool = rng.permutation(1000)[:n].astype(np.intc)
            was = pool.copy()
            j = C.equalprob(m, pool)
            mon.check(len(j) == m and len(set(j.tolist())) == m and set(j.tolist()) <= set(was.tolist()) and np.array_equal(pool, was),
                      'members of a pool without replacement', got=j)
            for f in (lambda: C.equalprob(n + 1, pool), lambda: C.equalprob(0, pool), lambda: C.equalprobi(n + 1, n, pool), lambda: C.equalprobi(0, n, pool),
                      lambda: C.equalprobi(2, n, pool[:-1]), lambda: S.sample(0), lambda: C._ppssampler(np.zeros(4)), lambda: C._ppssampler(np.ones((2, 2)))):
                mon.count('compiled refusals')
                mon.raises(ValueError, f, 'refused by the compiled code')

    for i, rng in mon.cases('history', 320, 4000):
        with mon.case('history', i):
            R.seed(int(rng.integers(2 ** 32)))
            Ps = [Popn(rng) for _ in range(int(rng.integers(1, 4)))]
            mon.note(populations=[(P.kind, P.n, P.equal) for P in Ps])
            restored, ops, kept = 0, [], []
            for step in range(int(rng.integers(8, 30))):
                w = int(rng.integers(len(Ps)))
                P = Ps[w]
                op = str(rng.choice(['sample', 'subset_pps', 'subset_pps5', 'subset_pps', 'subset_pps5', 'bad', 'normal', 'max']))
                k = int(rng.integers(1, min(P.n, 12) + 1))
                ops.append((w, op, k))
                mon.note(ops=ops[-10:])
                before = R.get_state()
                if op == 'normal':
                    # leaves a deviate pending, or takes it
                    R.standard_normal(int(rng.integers(1, 4)))
                    continue
                if op == 'max':
                    m = P.pop.max_subset()
                    want = P.n if P.equal else 1 / P.p.max()
                    mon.check(m == want or m == int(want * (1 + 1e-9)) or m == int(want * (1 - 1e-9)), 'largest subset', got=m, want=want)
                    mon.check(same_state(before, R.get_state()), 'generator undisturbed by a question')
                    continue
                if op == 'bad':
                    how = int(rng.integers(5))
                    if how == 0:
                        mon.raises(ValueError, lambda: P.pop.subset_pps(int(rng.integers(-3, 1))), 'subset of none')
                    elif how == 1:
                        mon.raises(ValueError, lambda: P.pop.subset_pps5(int(rng.integers(-3, 1))), 'subset of none')
                    elif how == 2:
                        mon.raises(ValueError, lambda: P.pop.subset_pps(P.n + int(rng.integers(1, 5))), 'subset larger than the population')
                    elif how == 3:
                        mon.raises(ValueError, lambda: P.pop.subset_pps5(P.n + int(rng.integers(1, 5))), 'subset larger than the population')
                    else:
                        if P.equal or P.n < 3 or P.p.max() * (P.n - 1) < 1.001:
                            continue
                        big = int(1.0005 / P.p.max()) + 1
                        if big >= P.n or big * P.p.max() < 1.0005:
                            continue
                        mon.raises(ValueError, lambda: P.pop.subset_pps(big) if rng.random() < .5 else P.pop.subset_pps5(big),
                                   'subset too large for the greatest weight')
                    mon.check(same_state(before, R.get_state()), 'generator undisturbed by what is refused')
                    mon.count('refusals')
                    continue
                if op == 'sample':
                    if P.equal:
                        continue
                    k = int(rng.integers(1, 40))
                elif not P.allowed(k):
                    continue
                got = ask(P.pop, op, k)
                good(P, op, k, got, op)
                mon.count('samples' if op == 'sample' else 'subsets')
                after = R.get_state()
                mon.check(after[3:] == before[3:], 'a pending normal deviate is kept', before=before[3:], after=after[3:])
                if (op == 'sample' or k < P.n) and np.sum(P.p > 0) > (1 if op == 'sample' else k):
                    mon.check(not same_state(before, after), 'the generator moves on')
                kept.append((got, list(got)))
                if op != 'sample':
                    P.methods.add(op)
                    P.sizes.add(k)
                if rng.random() < .4:
                    # the same from the same state, by this population, after other questions, or by a new one
                    follow = R.random_sample(3)
                    how = int(rng.integers(3))
                    Q = P.make() if how == 0 else P.pop
                    if how == 1:
                        for _ in range(2):
                            kk = int(rng.integers(1, P.n + 1))
                            if P.allowed(kk):
                                ask(P.pop, str(rng.choice(['subset_pps', 'subset_pps5'])), kk)
                    R.set_state(before)
                    again = ask(Q, op, k)
                    mon.check(P.where(again, op).tolist() == P.where(got, op).tolist(), 'the same from the same state, whatever was asked before',
                              got=again, want=got, how=how, op=op, k=k)
                    mon.check(np.array_equal(R.random_sample(3), follow), 'what follows is the same too', op=op)
                    restored += 1
                    mon.count('states restored')
                P.unchanged()
            for a, b in kept:
                mon.check(list(a) == b, 'earlier samples stay as they are')
            mon.count('histories')
            if restored and any(len(P.methods) > 1 and len(P.sizes) > 1 for P in Ps):
                mon.hit(i, tuple((P.kind, P.n) for P in Ps))
            if i % 80 == 0:
                mon.sample(populations=[(P.kind, P.n, P.equal) for P in Ps], ops=ops[:12])

    for i, rng in mon.cases('frequencies', 120 if mon.mode == 'plain' else 24, 900 if mon.mode == 'plain' else 200):
        with mon.case('frequencies', i):
            R.seed(int(rng.integers(2 ** 32)))
            P = Popn(rng, small=rng.random() < .5)
            mon.note(kind=P.kind, n=P.n, equal=P.equal, p=P.p[:8])
            if P.equal:
                continue
            N = 40000
            got, pairs = [], None
            while len(got) < N:
                k = int(rng.choice([1, 7, 1000, 5000]))
                got.extend(good(P, 'sample', k, P.pop.sample(k), 'sample').tolist())
                if rng.random() < .3:
                    R.standard_normal()
            got = np.array(got)
            # probabilities are held to thirty bits
            p = np.where(P.p < 2e-9, 0, P.p)
            seen = np.bincount(got, minlength=P.n)
            rare = (p == 0)
            mon.check(excess(seen[~rare], p[~rare] / p.sum() * len(got)) < SIGMAS, 'frequencies of samples', seen=seen[:12], want=P.p[:12] * len(got))
            mon.check(seen[rare].sum() <= 2, 'rare members')
            mon.count('frequencies')
            if P.n <= 12:
                j = got[:-1:2] * P.n + got[1::2][:len(got[:-1:2])]
                e = np.outer(p, p).ravel() / p.sum() ** 2 * len(j)
                mon.check(excess(np.bincount(j, minlength=P.n ** 2), e) < SIGMAS, 'samples are independent')

    def sampford(p, k):
        """probability of every subset of size k"""
        lam = p / (1 - k * p)
        sets = list(itertools.combinations(range(len(p)), k))
        pr = np.array([sum(p[i] * np.prod([lam[j] for j in s if j != i]) for i in s) for s in sets])
        return sets, pr / pr.sum()

    for i, rng in mon.cases('subsets', 120 if mon.mode == 'plain' else 24, 900 if mon.mode == 'plain' else 200):
        with mon.case('subsets', i):
            R.seed(int(rng.integers(2 ** 32)))
            for _ in range(200):
                P = Popn(rng, small=rng.random() < .7)
                k = int(rng.integers(1, min(P.n, 8) + 1))
                if k < P.n and P.allowed(k):
                    break
            else:
                continue
            op = str(rng.choice(['subset_pps', 'subset_pps5', 'both']))
            mon.note(kind=P.kind, n=P.n, k=k, op=op, p=P.p[:8], equal=P.equal)
            N = 2500 if mon.mode == 'plain' else 300
            small = math.comb(P.n, k) <= 60
            tally, incl, first = {}, np.zeros(P.n), np.zeros(P.n)
            for t in range(N):
                m = op if op != 'both' else ('subset_pps', 'subset_pps5')[t % 2]
                if t % 97 == 0:
                    kk = 1 + t % max(1, P.n - 1)
                    if P.allowed(kk):
                        ask(P.pop, m, kk)
                j = good(P, m, k, ask(P.pop, m, k), m)
                incl[j] += 1
                s = tuple(sorted(j.tolist()))
                tally[s] = tally.get(s, 0) + 1
            p = np.where(P.p < 2e-9, 0, P.p) if not P.equal else P.p
            p = p / p.sum()
            z = (incl - N * k * p) / np.sqrt(N * np.maximum(k * p * (1 - np.minimum(k * p, 1)), 3. / N))
            mon.check(np.all(np.abs(z) < SIGMAS), 'members included in proportion to their weight', got=incl[:10], want=(N * k * p)[:10])
            if small:
                if P.equal:
                    sets = list(itertools.combinations(range(P.n), k))
                    pr = np.full(len(sets), 1. / len(sets))
                else:
                    sets, pr = sampford(p, k)
                mon.check(excess([tally.get(s, 0) for s in sets], pr * N) < SIGMAS, 'frequencies of whole subsets', sets=sets[:10],
                          got=[tally.get(s, 0) for s in sets][:10], want=(pr * N)[:10])
                mon.count('subset distributions')
            mon.count('frequencies')

    for i, rng in mon.cases('certain', 80, 800):
        with mon.case('certain', i):
            # members whose inclusion probability is one are in every subset
            R.seed(int(rng.integers(2 ** 32)))
            k = int(rng.integers(1, 7))
            sure = int(rng.integers(1, k + 1))
            c = int(rng.integers(3, 9))
            left, rest = (k - sure) * c, []
            while left > 0:
                x = min(left, int(rng.integers(1, max(2, c - 1))))
                rest.append(x)
                left -= x
            w = [c] * sure + rest + [0] * int(rng.integers(1 if not rest else 0, 3))
            if max(rest + [0]) * (k - sure) > .9 * sum(rest) and rest:
                continue
            w = np.array(w)[rng.permutation(len(w))]
            if len(w) <= k or k * (c / w.sum()) != 1:
                continue
            scale = float(2. ** int(rng.integers(-4, 5)))
            names = ['m%d' % j for j in range(len(w))]
            P = Population(names, w * scale)
            incl = np.zeros(len(w))
            mon.note(w=w, k=k)
            N = 600
            for t in range(N):
                got = (P.subset_pps if t % 2 else P.subset_pps5)(k)
                j = [names.index(x) for x in got]
                mon.require(len(j) == k and len(set(j)) == k, 'as many as asked for, each once', got=got)
                mon.require(all(x in j for x in np.nonzero(w == c)[0]), 'members that are certain', got=got)
                incl[j] += 1
            q = k * w / w.sum()
            z = (incl - N * q) / np.sqrt(N * np.maximum(q * (1 - q), 3. / N))
            mon.check(np.all(np.abs(z) < SIGMAS), 'members included in proportion to their weight', got=incl, want=N * q)
            mon.count('certain members')

    for i, rng in mon.cases('refused', 40, 400):
        with mon.case('refused', i):
            n = int(rng.integers(1, 9))
            mon.raises(ValueError, lambda: Population(['x'] * n, np.ones(n + 1)), 'items and weights of different lengths')
            mon.raises(ValueError, lambda: Population(list(range(n + 1)), np.ones(n)), 'items and weights of different lengths')
            for f in (lambda: Population(weights=np.zeros(n)).sample(3), lambda: Population(weights=np.zeros(n + 2)).subset_pps(1),
                      lambda: Population(weights=[0] * (n + 2)).subset_pps5(1), lambda: Population(weights=np.ones(n)).sample(0),
                      lambda: Population(weights=np.ones(n)).sample(-3)):
                mon.raises(ValueError, f, 'weights of zero or an empty sample')
            mon.raises(ValueError, lambda: PWLinear(vals=np.ones(4)), 'no domain')
            mon.raises(ValueError, lambda: PWLinear(absc=np.arange(5.), vals=np.ones(4)), 'abscissas and values of different lengths')
            mon.raises(Exception, lambda: PWLinear(0., 1., np.zeros(n + 1)), 'a density of zero')
            mon.count('refusals', 10)

    for i, rng in mon.cases('density', 240 if mon.mode == 'plain' else 80, 3000):
        with mon.case('density', i):
            R.seed(int(rng.integers(2 ** 32)))
            n = int(rng.integers(2, 9)) if rng.random() < .5 else int(rng.integers(9, 120))
            even = bool(rng.random() < .7)
            lo = float(np.round(rng.uniform(-9, 9), 3)) * 10 ** int(rng.integers(-1, 3))
            hi = lo + float(rng.uniform(.5, 20))
            if rng.random() < .2:
                lo, hi = int(rng.integers(-5, 2)), int(rng.integers(3, 9))
            x = np.linspace(lo, hi, n)
            if not even:
                x = np.sort(np.concatenate(([lo, hi], rng.uniform(lo, hi, n - 2))))
                if np.any(np.diff(x) < 1e-6 * (hi - lo)):
                    continue
            shape = str(rng.choice(['random', 'peaks', 'flat', 'nearly flat', 'integers', 'spikes', 'decay']))
            v = rng.uniform(.05, 1, n)
            if shape == 'peaks':
                c = rng.uniform(lo, hi, 2)
                v = np.exp(-(x - c[0]) ** 2 / (.002 * (hi - lo) ** 2)) + .6 * np.exp(-(x - c[1]) ** 2 / (.001 * (hi - lo) ** 2)) + 1e-12
            elif shape == 'flat':
                v = np.full(n, .3)
            elif shape == 'nearly flat':
                v = 1. + rng.integers(0, 4, n) * 10. ** rng.integers(-16, -9)
            elif shape == 'integers':
                v = rng.integers(0, 6, n)
            elif shape == 'spikes':
                v = np.where(rng.random(n) < .3, v, 0.)
            elif shape == 'decay':
                v = np.exp(-np.arange(n) * rng.uniform(.1, 3))
            if not np.any(v > 0):
                continue
            cut = float(rng.choice([1e-9, 0., .01, .25, .6]))
            logs = bool(rng.random() < .4) and cut > 0
            u = np.asarray(v, float) / np.max(v)
            if np.any(np.abs(u - cut) < 1e-9 * u) and cut > 0:
                continue
            given = v
            if logs:
                with np.errstate(divide='ignore'):
                    given = np.log(v) + rng.uniform(-700, 700)
                if shape == 'integers' and rng.random() < .5:
                    given = -rng.integers(0, 30, n)
                    u = np.exp(given - np.max(given).astype(float))
                    if np.any(np.abs(u - cut) < 1e-9 * u):
                        continue
            elif rng.random() < .3:
                given = v * 10. ** rng.integers(-100, 100)
            scale_in = given
            if rng.random() < .3:
                given = given.tolist()
            ref = np.where(u > cut, u, 0.)
            area = float(np.sum(np.diff(x) * (ref[1:] + ref[:-1]) / 2))
            mon.note(n=n, even=even, shape=shape, cut=cut, logs=logs, lo=lo, hi=hi)
            keep = np.array(scale_in)
            kw = {'logvals': True} if logs else {}
            if cut != 1e-9:
                kw['cut'] = cut
            if even:
                D = PWLinear(lo, hi, given, **kw)
            else:
                ab = x if rng.random() < .5 else x.tolist()
                D = PWLinear(absc=ab, vals=given, **kw)
                mon.check(np.array_equal(np.array(ab), x), 'abscissas given are unchanged')
            mon.check(np.array_equal(np.array(given), keep), 'values given are unchanged')
            tol = 1e-9 * np.max(ref) / area
            if even:
                t = np.concatenate((rng.uniform(lo, hi, 60), x, [lo, hi], x[:-1] + np.diff(x) / 2, x[1:] - 1e-13 * (hi - lo),
                                    [lo - 1e-6 * (hi - lo), hi + 1e-6 * (hi - lo), lo - 5, hi + 70.]))
                want = np.interp(t, x, ref, left=0., right=0.) / area
                # just inside and on the ends of the domain
                want[(t < lo) | (t > hi)] = 0.
                how = int(rng.integers(3))
                got = D.pdf([t, t.tolist(), tuple(t)][how])
                mon.close(got, want, 'density', rtol=1e-9, atol=tol)
                for j in rng.integers(0, len(t), 6):
                    one = D.pdf(float(t[j]))
                    mon.check(np.ndim(one) == 0, 'a single value for a single argument')
                    mon.close(one, want[j], 'density at a single argument', rtol=1e-9, atol=tol)
                mon.count('pdf values', len(t))
                mon.count('densities')
            N = 20000 if i % 3 == 0 else 400
            before = R.get_state()
            s = D.sample(N)
            mon.require(np.shape(s) == (N,), 'as many samples as asked for', shape=np.shape(s))
            more = [D.sample() for _ in range(40)]
            mon.check(all(np.ndim(q) == 0 for q in more), 'a single sample')
            R.set_state(before)
            mon.check(np.array_equal(D.sample(N), s) and [D.sample() for _ in range(40)] == more, 'the same samples from the same state')
            more += [D.sample() for _ in range(400 if i % 3 == 0 else 10)]
            for q, what in ((s, 'samples'), (np.array(more), 'single samples')):
                mon.check(np.all((q >= lo) & (q <= hi)), what + ' are in the domain', worst=[float(np.min(q)), float(np.max(q))])
                cell = np.clip(np.searchsorted(x, q, side='right') - 1, 0, n - 2)
                inside = ref[cell] + ref[cell + 1] > 0
                near = np.minimum(np.abs(q - x[cell]), np.abs(q - x[cell + 1])) < 1e-9 * (hi - lo)
                mon.check(np.all(inside | near), what + ' are where there is density', bad=q[~(inside | near)][:4])
                # halves and quarters of every cell
                edges = np.unique(np.concatenate((x, x[:-1] + np.diff(x) / 2, x[:-1] + np.diff(x) / 4)))
                f = np.interp(edges, x, ref)
                e = np.diff(edges) * (f[1:] + f[:-1]) / 2 / area
                h = np.histogram(np.clip(q, lo, hi), edges)[0]
                zero = e <= 0
                e, h = e[~zero], h[~zero]
                mon.check(excess(h, e / e.sum() * h.sum()) < SIGMAS, what + ' have the density')
                mon.count('density samples')
            if len(np.unique(ref > 0)) > 1:
                mon.hit('density', i, shape)

    for i, rng in mon.cases('values', 80, 1500):
        with mon.case('values', i):
            R.seed(int(rng.integers(2 ** 32)))
            n = int(rng.integers(2, 12))
            v = np.round(rng.normal(size=n) * 5, 3) + np.arange(n) * 1e-4
            if rng.random() < .3:
                v = rng.permutation(30)[:n]
            w = rng.uniform(.1, 1, n)
            w /= w.sum()
            err = rng.uniform(.01, .1, n) if rng.random() < .5 else None
            a = v if rng.random() < .5 else v.tolist()
            b = w if rng.random() < .5 else w.tolist()
            e = err if err is None or rng.random() < .5 else err.tolist()
            P = Population1D(a, b, e)
            mon.note(v=v, w=w, err=err)
            mon.check(np.array_equal(np.array(a), v) and np.array_equal(np.array(b), w), 'arguments are unchanged')
            o = np.argsort(v)
            vs, ws = v[o], w[o]
            lo = None if rng.random() < .4 else float(vs[0] - rng.uniform(0, 3))
            hi = None if rng.random() < .4 else float(vs[-1] + rng.uniform(0, 3))
            got = P.haz_pts(lo, hi) if rng.random() < .5 else P.haz_pts(start=lo, end=hi)
            lo, hi = vs[0] if lo is None else lo, vs[-1] if hi is None else hi
            fall = np.cumsum(ws[::-1])[::-1]
            level = np.concatenate(([1.], fall))
            mon.check(len(got) == (2 if err is None else 5), 'points, and error bars where there are errors', got=len(got))
            mon.close(got[0], np.concatenate(([lo], np.repeat(vs, 2), [hi])), 'abscissas of the descending distribution', rtol=1e-12, atol=1e-12)
            mon.close(got[1], np.concatenate((np.repeat(level, 2)[:-1], [0.])), 'levels of the descending distribution', atol=1e-12)
            if err is not None:
                mon.close(got[2], np.append((vs[1:] + vs[:-1]) / 2, (vs[-1] + hi) / 2), 'places of the error bars', atol=1e-12)
                mon.close(got[3], fall, 'values at the error bars', atol=1e-12)
                mon.close(got[4], err[o], 'error bars', atol=0)
            mon.check(all(isinstance(x, np.ndarray) for x in got), 'arrays of points', got=[type(x).__name__ for x in got])
            keep = [np.array(x) for x in got]
            for x in got:
                np.asarray(x)[...] = -9.
            mon.check(all(np.array_equal(x, y) for x, y in zip(keep, P.haz_pts(lo, hi))), 'points handed out are the caller\'s own')
            mon.raises(ValueError, lambda: P.haz_pts(start=vs[0] + .01), 'a range that does not span the values')
            mon.raises(ValueError, lambda: P.haz_pts(end=vs[-1] - .01), 'a range that does not span the values')
            N = 4000
            s = np.array(P.sample(N))
            seen = np.array([np.sum(s == x) for x in vs])
            mon.check(seen.sum() == N, 'samples are of the values')
            mon.check(excess(seen, ws * N) < SIGMAS, 'frequencies of the values', seen=seen, want=ws * N)
            mon.count('descending distributions')

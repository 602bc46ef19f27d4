"""Models for the PIE checks, and a reference for the state of parameters."""
import contextlib
import io

import numpy as np


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()) as s:
        yield s


class Par:
    """What a parameter should be"""

    def __init__(self, name, default):
        self.name, self.value, self.status = name, float(default), 'fixed'
        self.lo = self.hi = self.delta = None
        self.grid, self.num, self.dirn = None, None, 1
        self.touched = False

    def state(self):
        d = dict(self.__dict__)
        d.pop('touched')
        return d

    @property
    def bounded(self):
        return self.lo is not None

    def inside(self, v):
        return self.lo is None or self.lo <= v <= self.hi


class Refused(Exception):
    pass


class Ref:
    """What an inference's parameters should be; each operation is either refused before it changes anything, or done."""

    def __init__(self, names, defaults):
        self.names = list(names)
        self.p = {n: Par(n, d) for n, d in zip(names, defaults)}
        self.order = {'fixed': [], 'varying': [], 'stepping': []}

    def touch(self, n):
        p = self.p[n]
        if not p.touched:
            p.touched = True
            self.order['fixed'].append(n)
        return p

    def status(self, p, new):
        old = p.status
        if not p.touched:
            p.touched = True
            self.order[new].append(p.name)
        elif old != new:
            self.order[old].remove(p.name)
            self.order[new].append(p.name)
        p.status = new
        if new == 'stepping' or old == 'stepping':
            self.reset()

    def reset(self):
        for n in self.order['stepping']:
            p = self.p[n]
            p.num, p.dirn, p.value = 0, 1, p.grid[0]

    def fix(self, n, v=None):
        p = self.touch(n) if v is None else self.p[n]
        if v is not None:
            if not p.inside(v):
                raise Refused
            p.value = float(v)
        self.status(p, 'fixed')

    def range(self, n, a, b):
        p = self.touch(n)
        p.lo, p.hi = float(min(a, b)), float(max(a, b))

    def step(self, n, lo, hi, k, log):
        p = self.touch(n)
        if lo is not None and not p.inside(lo) or hi is not None and not p.inside(hi):
            raise Refused
        if (lo is None or hi is None) and not p.bounded:
            raise Refused
        lo = p.lo if lo is None else lo
        hi = p.hi if hi is None else hi
        if log and lo * hi <= 0 or k < 2:
            raise Refused
        if log:
            p.grid = np.sign(lo) * np.exp(np.linspace(np.log(abs(lo)), np.log(abs(hi)), k))
            p.grid[0], p.grid[-1] = lo, hi
        else:
            p.grid = np.linspace(lo, hi, k)
            p.delta = (hi - lo) / (k - 1.)
        p.num, p.dirn, p.value, p.islog = 0, 1, p.grid[0], log
        self.status(p, 'stepping')

    def vary(self, n, start=None, delta=None, rng=None):
        p = self.touch(n)
        if rng is None and not p.bounded or delta is None and p.delta is None:
            raise Refused
        lo, hi = (p.lo, p.hi) if rng is None else (min(rng), max(rng))
        v = p.value if start is None else start
        if not lo <= v <= hi:
            raise Refused
        p.lo, p.hi = float(lo), float(hi)
        p.value = float(v)
        if delta is not None:
            p.delta = delta
        self.status(p, 'varying')

    def set_value(self, n, v):
        p = self.touch(n)
        if p.status != 'varying' or not p.inside(v):
            raise Refused
        p.value = float(v)

    def move(self, n, how):
        p = self.touch(n)
        if p.status != 'stepping':
            raise Refused
        num = {'next_step': p.num + 1, 'prev_step': p.num - 1, 'first_step': 0, 'last_step': len(p.grid) - 1}[how]
        if not 0 <= num < len(p.grid):
            raise Refused
        p.num, p.value = num, p.grid[num]

    def next_step(self):
        """False when the grid is exhausted"""
        if not self.order['stepping']:
            raise Refused
        for n in self.order['stepping']:
            p = self.p[n]
            if 0 <= p.num + p.dirn < len(p.grid):
                p.num += p.dirn
                p.value = p.grid[p.num]
                return True
            p.dirn = -p.dirn
        self.reset()
        return False

    def set_params(self, vals):
        for n in self.names:
            p = self.touch(n)
            if p.status == 'stepping' or not p.inside(vals[n]) or p.status == 'varying' and p.delta is None:
                raise Refused
        for n in self.names:
            self.p[n].value = float(vals[n])


def build(pie, source, **names):
    """Models defined as a user would define them"""
    ns = dict(SignalModel=pie.SignalModel, RealParam=pie.RealParam, PredictorSet=pie.PredictorSet,
              SampledGaussian=pie.SampledGaussian, ChisqrInference=pie.ChisqrInference, np=np,
              MaxLikeInference=pie.MaxLikeInference, BayesianInference=pie.BayesianInference, **names)
    with quiet():
        exec(source, ns)
    return ns


class Linear:
    """A model that is linear in its parameters, with data of its own: all optima are known."""

    def __init__(self, rng, pie, k=None, inference=None, vector=None, prior=None, defaults=None, scale=1.):
        self.k = k = int(rng.integers(1, 5)) if k is None else k
        self.names = ['p%d' % j for j in rng.permutation(9)[:k]]
        self.truth = rng.normal(size=k) * scale
        self.defaults = np.round(self.truth + rng.normal(size=k) * .5 * scale, 3) if defaults is None else defaults
        self.kind = str(inference or rng.choice(['ChisqrInference', 'MaxLikeInference', 'BayesianInference']))
        self.npred = int(rng.integers(1, 3))
        self.data = []
        for _ in range(self.npred):
            nd = int(rng.integers(k + 2, k + 12))
            t = np.sort(rng.uniform(-1, 1, nd))
            sig = rng.uniform(.2, 2., nd)
            y = self.design(t) @ self.truth + sig * rng.normal(size=nd)
            self.data.append((t, y, sig))
        self.prior_prec = rng.uniform(.05, 3., k) if prior or (prior is None and rng.random() < .7) else np.zeros(k)
        self.prior_mean = self.truth + rng.normal(size=k)
        # an unnormalised prior: the log posterior may have any sign, and change it over the range of interest
        self.const = 0. if rng.random() < .4 else float(np.round(rng.choice([1., -1., 30., 30., 300., 1e4]) * rng.uniform(.1, 1.), 3))
        vector = rng.random() < .5 if vector is None else vector
        src = 'class Model(SignalModel):\n'
        for n, d in zip(self.names, self.defaults):
            src += '    %s = RealParam(%r)\n' % (n, float(d))
        src += '''
    def now(self):
        return np.array([float(getattr(self, n)) for n in L.names])
    def on_use(self):
        L.used[id(self)] = self.now()
        L.uses += 1
    def %s(self, t):
        now = self.now()
        L.trace(now, id(self))
        return %s
class Data(PredictorSet):
''' % (('signals', 'L.design(np.asarray(t, float)) @ now') if vector else
            ('signal', 'float(L.design(np.array([float(t)])) @ now)'))
        for j in range(self.npred):
            src += '    data%d = SampledGaussian(*L.data[%d])\n' % (j, j)
        src += 'class Inference(%s, Model, Data):\n' % self.kind
        src += '    def log_prior(self):\n        L.priors += 1\n        return L.log_prior(self.now())\n'
        self.uses, self.priors, self.used, self.points, self.stale, self.fail = 0, 0, {}, [], [], None
        self.evaluations = 0
        self.cls = build(pie, src, L=self)['Inference']
        self.maximize = self.kind != 'ChisqrInference'
        # the score is s0 * [c - (p-m)' Q (p-m)], s0 = -1 for chi**2, 1/2 otherwise
        Q, b, c = np.zeros((k, k)), np.zeros(k), 0.
        for t, y, sig in self.data:
            D = self.design(t) / sig[:, None]
            Q += D.T @ D
            b += D.T @ (y / sig)
        if self.kind == 'BayesianInference':
            Q += np.diag(self.prior_prec)
            b += self.prior_prec * self.prior_mean
        self.Q, self.mode = Q, np.linalg.solve(Q, b)

    def design(self, t):
        return np.stack([np.ones_like(t), t, np.cos(2.5 * t), np.exp(.7 * t) * t * t][:self.k], axis=-1)

    def log_prior(self, p):
        return float(self.const - .5 * np.sum(self.prior_prec * (p - self.prior_mean) ** 2))

    def trace(self, now, who):
        self.evaluations += 1
        used = self.used.get(who)
        if used is None or not np.array_equal(used, now):
            self.stale.append((used, now))
        if not self.points or not np.array_equal(self.points[-1], now):
            self.points.append(now)
        if self.fail is not None:
            self.fail -= 1
            if self.fail < 0:
                raise Fault('injected')

    def score(self, p):
        p = np.asarray(p, float)
        chi = sum(np.sum(((y - self.design(t) @ p) / sig) ** 2) for t, y, sig in self.data)
        if self.kind == 'ChisqrInference':
            return chi
        return -.5 * chi + (self.log_prior(p) if self.kind == 'BayesianInference' else 0.)

    def better(self, a, b):
        """by how much score a is better than b"""
        return a - b if self.maximize else b - a

    def conditional(self, fixed):
        """The best values of all parameters, given {index: value}"""
        p = np.zeros(self.k)
        f = sorted(fixed)
        v = [j for j in range(self.k) if j not in fixed]
        for j in f:
            p[j] = fixed[j]
        if v:
            rhs = self.Q[np.ix_(v, range(self.k))] @ self.mode - self.Q[np.ix_(v, f)] @ p[f] if f else \
                self.Q[np.ix_(v, range(self.k))] @ self.mode
            p[v] = np.linalg.solve(self.Q[np.ix_(v, v)], rhs)
        return p


class Fault(Exception):
    pass

"""C13: the Gaussian predictor: likelihood, data of instances, simulation."""
import numpy as np

from .pie_ref import build, quiet

RULE = ('random data in every accepted form, one- and two-dimensional locations, scalar and vector models, several instances, '
        'histories of simulations and parameter changes; non-trivial: a history with a simulation')
ASSUMPTIONS = ['random numbers come from the global numpy generator']


def minimums(tier):
    return {'histories': 400, 'operations': 4000, 'likelihoods': 8000, 'simulated data': 10000, 'refusals': 150, 'replays': 100}


def sigmas(rng, n):
    """of one order of magnitude, or of many"""
    r = rng.random()
    if r < .5:
        return rng.uniform(.1, 3, n)
    return 10 ** (rng.uniform(-6, 5, n) if r < .8 else rng.uniform(-6, 5) + rng.uniform(-.5, .5, n))


def model2(rng, pie, forms):
    """A model of the given dimension, its data, and reference functions"""
    dim = 1 if rng.random() < .65 else int(rng.integers(2, 4))
    nd = int(rng.integers(1, 13)) if rng.random() < .95 else int(rng.integers(13, 300))
    locns = rng.normal(size=nd) if dim == 1 else rng.normal(size=(nd, dim))
    vals, sig = rng.normal(size=nd) * 3, sigmas(rng, nd)
    if rng.random() < .3:
        vals = vals * 10 ** rng.uniform(-6, 6)
    if rng.random() < .25:
        locns, vals, sig = np.round(locns * 3).astype(int), np.round(vals * 3).astype(int), rng.integers(1, 4, nd)
    form = str(rng.choice(forms if dim == 1 else [f for f in forms if f != 'array']))
    if form == 'three':
        args = (locns, vals, sig)
    elif form == 'array':
        args = (np.column_stack((locns, vals, sig)),)
    else:
        rows = [(locns[j] if dim == 1 else tuple(locns[j]), vals[j], sig[j]) for j in range(nd)]
        args = (rows if rng.random() < .5 else tuple(rows),)
    vec = rng.random() < .5

    def pred(a, b, x):
        x = np.asarray(x, float)
        x = x if x.ndim == 1 else x @ np.arange(1., x.shape[1] + 1)
        return a + b * np.sin(x) + a * b * x
    return dim, nd, locns, vals, sig, form, args, vec, pred


def run(mon):
    from inference import pie
    from inference.pie import DataError
    zs, pairs = [], []

    for i, rng in mon.cases('history', 560, 20000):
        with mon.case('history', i):
            np.random.seed(int(rng.integers(2 ** 31)))
            npred = int(rng.integers(1, 4))
            D = [model2(rng, pie, ['three', 'three', 'array', 'rows']) for _ in range(npred)]
            dim = D[0][0]
            D = [d for d in D if d[0] == dim]
            npred = len(D)
            vec = D[0][7]
            pred = D[0][8]
            copies = [[np.array(a, copy=True) if isinstance(a, np.ndarray) else a for a in d[6]] for d in D]
            kind = str(rng.choice(['ChisqrInference', 'MaxLikeInference', 'BayesianInference']))
            log = []
            src = '''
class M(SignalModel):
    a = RealParam(1.5)
    b = RealParam(-.5)
    def on_use(self):
        self.ready = (float(self.a), float(self.b))
    def %s:
        LOG.append(self.ready == (float(self.a), float(self.b)))
        return %s
class P(PredictorSet):
''' % (('signals(self, x)', 'PRED(float(self.a), float(self.b), x)') if vec else
                ('signal(self, *x)', 'float(PRED(float(self.a), float(self.b), np.array([x] if len(x) > 1 else x))[0])'))
            for j in range(npred):
                src += "    g%d = SampledGaussian(*ARGS[%d]%s)\n" % (j, j, ", doc='data'" if rng.random() < .5 else '')
            src += 'class I(%s, M, P):\n    def log_prior(self):\n        return -.5*float(self.a)**2 - .1*float(self.b)\n' % kind
            ns = build(pie, src, ARGS=[d[6] for d in D], PRED=pred, LOG=log)
            orig = [dict(x=np.array(d[2], float), v=np.array(d[3], float), s=np.array(d[4], float)) for d in D]
            insts = []

            def fresh():
                with quiet():
                    insts.append((ns['I'](), [{k: v.copy() for k, v in o.items()} for o in orig], [1.5, -.5]))
            fresh()
            if rng.random() < .6:
                fresh()
            mon.note(kind=kind, dim=dim, forms=[d[5] for d in D], ndata=[d[1] for d in D])

            def compare(inst, data, par, what):
                total = allslack = 0.
                for j, d in enumerate(data):
                    g = getattr(inst, 'g%d' % j)
                    m = pred(par[0], par[1], d['x'])
                    z = (d['v'] - m) / d['s']
                    chi = float(np.sum(z * z))
                    # rounding of the model and the residual
                    dz = 1e-14 * (np.abs(d['v']) + np.abs(m) + 1) / d['s']
                    slack = float(np.sum((2 * np.abs(z) + dz) * dz))
                    allslack += slack
                    for name in [['chisqr', 'log_like'], ['log_like', 'chisqr'], ['log_like'], ['chisqr']][int(rng.integers(4))]:
                        with quiet():
                            got = getattr(g, name)()
                        mon.close(got, chi if name == 'chisqr' else -.5 * chi, what + ': ' + name, rtol=1e-9, atol=1e-12 + slack,
                                  predictor=j)
                        mon.count('likelihoods')
                    total += chi
                    mon.check(g.ndata == len(d['v']) and g.dimen == dim, what + ': number of data and dimension', got=(g.ndata, g.dimen),
                              want=(len(d['v']), dim))
                    mon.check(np.array_equal(np.asarray(g.vals, float), d['v']) and np.array_equal(np.asarray(g.sigmas, float), d['s'])
                              and np.array_equal(np.asarray(g.locns, float), d['x']), what + ': the data', predictor=j)
                want = total if kind == 'ChisqrInference' else -.5 * total
                if kind == 'BayesianInference':
                    want += -.5 * par[0] ** 2 - .1 * par[1]
                with quiet():
                    mon.close(inst.score(), want, what + ': score', rtol=1e-9, atol=1e-11 + allslack)
            for inst, data, par in insts:
                compare(inst, data, par, 'at the start')
            ops = []
            for _ in range(int(rng.integers(3, 16))):
                inst, data, par = insts[int(rng.integers(len(insts)))]
                j = int(rng.integers(npred))
                g, d = getattr(inst, 'g%d' % j), data[j]
                op = str(rng.choice(['param', 'sim', 'sim', 'sim locns', 'sim sigmas', 'sim both', 'sim1', 'sim1', 'add one', 'add many',
                                     'refused', 'fresh', 'replay']))

                def newx(n):
                    x = rng.normal(size=n) if dim == 1 else rng.normal(size=(n, dim))
                    return x

                def asgiven(x):
                    return x if rng.random() < .5 else x.tolist()
                nd = len(d['v'])
                old = {k: v.copy() for k, v in d.items()}
                changed = None          # indices of newly simulated data
                if op == 'param':
                    k = int(rng.integers(2))
                    par[k] = float(rng.normal())
                    setattr(inst, 'ab'[k], par[k])
                elif op == 'fresh':
                    if len(insts) < 4:
                        fresh()
                elif op == 'sim':
                    with quiet():
                        g.sim()
                    changed = np.arange(nd)
                elif op == 'sim locns':
                    d['x'] = newx(nd)
                    with quiet():
                        g.sim(locns=asgiven(d['x']))
                    changed = np.arange(nd)
                elif op == 'sim sigmas':
                    d['s'] = sigmas(rng, nd)
                    with quiet():
                        g.sim(sigmas=asgiven(d['s']))
                    changed = np.arange(nd)
                elif op == 'sim both':
                    m = int(rng.integers(1, 15))
                    d['x'], d['s'] = newx(m), sigmas(rng, m)
                    given = asgiven(d['x']), asgiven(d['s'])
                    with quiet():
                        if rng.random() < .5:
                            g.sim(*given)
                        else:
                            g.sim(locns=given[0], sigmas=given[1])
                    changed = np.arange(m)
                elif op == 'sim1':
                    k = int(rng.integers(nd))
                    kw = {}
                    if rng.random() < .4:
                        x = newx(1)[0]
                        if rng.random() < .2:
                            x = 0. * x
                        d['x'] = d['x'].copy()
                        d['x'][k] = x
                        kw['locn'] = x
                    if rng.random() < .4:
                        d['s'] = d['s'].copy()
                        d['s'][k] = kw['sigma'] = float(sigmas(rng, 1)[0])
                    with quiet():
                        g.sim1([k, k, k - nd, np.int64(k)][int(rng.integers(4))], **kw)
                    changed = np.array([k])
                elif op == 'add one':
                    x, s = newx(1)[0], float(sigmas(rng, 1)[0])
                    d['x'] = np.concatenate((d['x'], [x]))
                    d['s'] = np.append(d['s'], s)
                    with quiet():
                        if rng.random() < .5:
                            g.add_sim(x, s)
                        else:
                            g.add_sim(locn=x, sigma=s)
                    changed = np.array([nd])
                elif op == 'add many':
                    m = int(rng.integers(1, 6))
                    x, s = newx(m), sigmas(rng, m)
                    d['x'], d['s'] = np.concatenate((d['x'], x)), np.append(d['s'], s)
                    given = asgiven(x), asgiven(s)
                    with quiet():
                        g.add_sim(locns=given[0], sigmas=given[1])
                    changed = np.arange(nd, nd + m)
                elif op == 'refused':
                    bad = nd + 1 + int(rng.integers(3))
                    r = int(rng.integers(4))
                    call = [lambda: g.sim(locns=newx(bad)), lambda: g.sim(sigmas=np.ones(bad)),
                            lambda: g.sim(locns=newx(nd), sigmas=np.ones(bad)), lambda: g.add_sim(locns=newx(2), sigmas=np.ones(3))][r]
                    mon.raises(ValueError, call, 'lengths that do not match')
                    mon.count('refusals')
                elif op == 'replay':
                    seed = int(rng.integers(2 ** 31))
                    got = []
                    for _ in range(2):
                        np.random.seed(seed)
                        with quiet():
                            g.sim()
                        got.append(np.array(g.vals))
                    mon.check(np.array_equal(*got), 'the same seed gives the same data')
                    mon.check(len(set(got[0].tolist())) == len(got[0]) or nd == 1, 'simulated data differ')
                    d['v'] = got[1]
                    np.random.seed(int(rng.integers(2 ** 31)))
                    mon.count('replays')
                    with quiet():
                        g.sim()
                    changed = np.arange(nd)
                if changed is not None:
                    v = np.array(g.vals, float)
                    mon.require(v.shape == (len(d['s']),), op + ': number of data', got=v.shape, want=len(d['s']))
                    rest = [k for k in range(min(len(old['v']), len(v))) if k not in changed]
                    mon.check(np.array_equal(v[rest], old['v'][rest]), op + ': other data are untouched')
                    d['v'] = v
                    z = (v - pred(par[0], par[1], d['x'])) / d['s']
                    zs.extend(z[changed].tolist())
                    zc = z[changed]
                    pairs.extend(zip(zc[:-1], zc[1:]))
                    mon.check(np.all(np.abs(z[changed]) < 8), op + ': simulated data scatter about the predictions', z=z[changed])
                    mon.check(not g.using_globals(), op + ': the data are local')
                    mon.count('simulated data', len(changed))
                    mon.hit(i, op)
                ops.append(op)
                mon.note(ops=ops[-8:])
                mon.count('operations')
                # looking at the state may mend it, so it is not looked at after every operation
                for other, odata, opar in insts if rng.random() < .5 else []:
                    compare(other, odata, opar, ('after ' if other is inst else 'another instance after ') + op)
            for inst, data, par in insts:
                compare(inst, data, par, 'at the end')
            mon.check(all(log), 'the model is set up for the parameters it is used with')
            for d, c in zip(D, copies):
                for a, b in zip(d[6], c):
                    if isinstance(a, np.ndarray):
                        mon.check(np.array_equal(a, b), "the caller's arrays are unchanged")
            fresh()
            compare(*insts[-1], 'a new instance has the original data')
            mon.count('histories')
            if i % 80 == 0:
                mon.sample(forms=[d[5] for d in D], ops=ops)
    if len(zs) >= 500:
        with mon.case('distribution', mon.shard):
            from scipy import stats
            z = np.array(zs)
            mon.check(stats.kstest(z, 'norm').pvalue > 1e-9, 'simulated data are normal', n=len(z), mean=z.mean(), std=z.std())
            mon.check(abs(z.mean()) < 7 / np.sqrt(len(z)), 'mean of the simulated data', mean=z.mean(), n=len(z))
            mon.check(abs(z.var() - 1) < 7 * np.sqrt(2. / len(z)), 'variance of the simulated data', var=z.var(), n=len(z))
            p = np.array(pairs)
            mon.check(abs(np.mean(p[:, 0] * p[:, 1])) < 7 / np.sqrt(len(p)), 'simulated data are independent')

    for i, rng in mon.cases('malformed', 40, 400):
        with mon.case('malformed', i):
            n = int(rng.integers(1, 6))
            with quiet():
                for bad in ((np.ones(n), np.ones(n + 1), np.ones(n)), (np.ones(n), np.ones(n), np.ones(n + 1)),
                            (np.ones(n + 1), np.ones(n), np.ones(n)), (np.ones((n, 2, 2)), np.ones(n), np.ones(n)),
                            (np.ones(3 * n),)):
                    mon.raises((DataError, ValueError), lambda: pie.SampledGaussian(*bad), 'malformed data')
                    mon.count('refusals')

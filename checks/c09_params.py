"""C09: the state of parameters over histories of user operations, against a reference model."""
import numpy as np

from .pie_ref import Ref, Refused, build, quiet

RULE = ('random models and histories of operations on several instances at once, compared after each operation with a '
        'reference model of the parameters; non-trivial: a history with a step, a change of status and a refusal')
ASSUMPTIONS = ['values and ranges are finite numbers', 'on_param_change does not raise']


def minimums(tier):
    return {'operations': 8000, 'refusals': 1000, 'changes of status': 2000, 'inference steps': 2500,
            'notifications': 5000, 'grids exhausted': 100, 'subclassed models': 20, 'snapshots restored': 100,
            'changes heard by listeners': 2000}


NAMES = ['x', 'theta', 'A', 'b_2', 'sigma_', 'alpha', 'zeta', 'q0', 'val', 'hi_', 'm', 'n1']


def model(rng, pie):
    k = int(rng.integers(1, 5))
    names = [str(n) for n in rng.permutation(NAMES)]
    defaults = [float(np.round(rng.normal() * 10 ** rng.uniform(-2, 2), 3)) for _ in names]
    if rng.random() < .1:
        defaults[0] = 0.
    kp = int(rng.integers(0, 3))
    npred = int(rng.integers(1, 4))
    sub = rng.random() < .35 and k > 1
    split = int(rng.integers(1, k)) if sub else k
    doc = [rng.random() < .5 for _ in names]

    def par(j):
        gap = ['', ' ', '   '][int(rng.integers(3))]
        return '    %s%s=%sRealParam(%r%s)\n' % (names[j], gap, gap, defaults[j], ", 'doc of %s'" % names[j] if doc[j] else '')
    body = '''
    def signal(self, t):
        return sum(float(getattr(self, n)) for n in SIG if hasattr(self, n)) + 0.*t
    def on_param_change(self, param):
        self.__dict__.setdefault('log', []).append((param.name, float(getattr(self, param.name))))
'''
    src = 'SIG = %r\n' % (names[:k],)
    src += 'class Base(SignalModel):\n' + ''.join(par(j) for j in range(split)) + body
    if sub:
        src += 'class Model(Base):\n' + ''.join(par(j) for j in range(split, k))
    else:
        src += 'Model = Base\n'
    preds = ['d%d' % j for j in rng.permutation(9)[:npred]]
    src += 'class Data(PredictorSet):\n'
    for j, pn in enumerate(preds):
        src += '    %s = SampledGaussian(np.array([0., 1.]), np.array([1., 2.]), np.array([1., 1.]))\n' % pn
        if j == 0:
            src += ''.join(par(j) for j in range(k, k + kp))
    order = ['Inf, Model, Data', 'Inf, Data, Model'][int(rng.integers(2))]
    src += 'class Inference(%s):\n    def log_prior(self):\n        return 0.\n' % order.replace(
        'Inf', ['ChisqrInference', 'MaxLikeInference', 'BayesianInference'][int(rng.integers(3))])
    if sub:
        src += 'class Other(ChisqrInference, Base, Data):\n    pass\n'
    ns = build(pie, src)
    return ns, names[:k + kp], defaults[:k + kp], preds, sub, split, k, doc


OPS = ['fix', 'fix0', 'assign', 'range', 'linstep', 'logstep', 'vary', 'set_value', 'next_step', 'prev_step', 'first_step',
       'last_step', 'inf_next', 'inf_reset', 'get_params', 'set_params', 'set_params', 'score', 'stale', 'arith', 'check', 'show',
       'listen', 'listen', 'unlisten']


def run(mon):
    from inference import pie
    from inference.pie.param import ParamError, ParamRangeError, fixed, stepping, varying
    from inference.pie.signalmodel import StopStepping
    CODE = {'fixed': fixed, 'stepping': stepping, 'varying': varying}
    ANY = (ParamError, ValueError, RuntimeError, ZeroDivisionError, IndexError)

    class Heard:
        """A listener that answers to anything"""
        def __init__(self):
            self.n = 0

        def __getattr__(self, name):
            if name.startswith('__'):
                raise AttributeError(name)

            def f(*a):
                self.n += 1
            return f

    def compare(inst, ref, what, close):
        for n in ref.names:
            p = ref.p[n]
            if not p.touched:
                continue
            v = getattr(inst, n)
            st = v.status
            mon.check(st == CODE[p.status], what + ': status', param=n, got=st, want=p.status)
            if p.status == 'stepping' and 0 < p.num < len(p.grid) - 1:
                scale = abs(p.value) if p.islog else max(abs(p.grid[0]), abs(p.grid[-1]))
                mon.close(float(v), p.value, what + ': value at a step', rtol=0, atol=close * scale, param=n, num=p.num)
            else:
                tol = 0. if p.status != 'stepping' and p.grid is None else close * max(
                    abs(p.value), 0 if p.grid is None else max(abs(p.grid[0]), abs(p.grid[-1])))
                mon.close(float(v), p.value, what + ': value', rtol=0, atol=0. if p.status == 'stepping' else tol, param=n)
                if p.status != 'stepping' and p.value != float(v):
                    p.value = float(v)      # fixed at an inner step: exact from here on
            mon.check(float(v.get_value()) == float(v) and v.copy_value() == float(v) and type(v.copy_value()) is float,
                      what + ': get_value')
            if p.status == 'stepping':
                mon.check(v.step_num == p.num and v.step_index() == p.num and v.steps == len(p.grid), what + ': step number',
                          param=n, got=v.step_num, want=p.num)
                mon.check(min(p.grid[0], p.grid[-1]) <= float(v) <= max(p.grid[0], p.grid[-1]), what + ': inside the grid')
            elif v.status != stepping:
                mon.raises(ANY, v.step_index, what + ': no step number of a parameter that does not step')
            mon.check(bool(v.bounded) == p.bounded and (not p.bounded or (v.lo, v.hi) == (p.lo, p.hi)), what + ': range',
                      param=n, want=(p.lo, p.hi))
            if p.status == 'varying':
                mon.close(v.delta, p.delta, what + ': scale of variation', rtol=1e-12, param=n)
        lists = {'fixed': inst.fixed_params, 'varying': inst.varying_params, 'stepping': inst.stepping_params}
        for k, lst in lists.items():
            got = [p.name for p in lst]
            if all(p.touched for p in ref.p.values()):
                mon.check(sorted(got) == sorted(ref.order[k]), what + ': membership of the lists', which=k, got=got,
                          want=ref.order[k])
            else:
                mon.check(len(set(got)) == len(got) and set(ref.order[k]) <= set(got), what + ': membership of the lists',
                          which=k, got=got, want=ref.order[k])
            if k != 'fixed':
                mon.check(got == ref.order[k], what + ': order of declaration', which=k, got=got, want=ref.order[k])
        mon.check(tuple(inst.step_nums()) == tuple(ref.p[n].num for n in ref.order['stepping']), what + ': step_nums')
        mon.check(tuple(inst.step_shape()) == tuple(len(ref.p[n].grid) for n in ref.order['stepping']), what + ': step_shape')

    for i, rng in mon.cases('history', 1600, 60000):
        with mon.case('history', i):
            ns, names, defaults, preds, sub, split, k, doc = model(rng, pie)
            classes = [(ns['Inference'], names, defaults)]
            if sub:
                keep = names[:split] + names[k:]
                classes.append((ns['Other'], keep, [defaults[names.index(n)] for n in keep]))
                mon.count('subclassed models')
            insts = []
            for j in range(int(rng.integers(1, 4))):
                cls, nm, df = classes[int(rng.integers(len(classes)))]
                with quiet():
                    inst = cls()
                mon.check(list(inst.params) == nm, 'parameters in the order of definition', got=inst.params, want=nm)
                mon.check(list(inst.predictors) == preds, 'predictors in the order of definition', got=inst.predictors, want=preds)
                ref = Ref(nm, df)
                if rng.random() < .7:
                    pv = inst.get_params()
                    for n in nm:
                        ref.touch(n)
                    mon.check(list(pv.names) == nm, 'get_params lists the parameters in order')
                    for n, d in zip(nm, df):
                        mon.check(getattr(pv, n) == d, 'parameters start at their defaults', param=n)
                insts.append((inst, ref, [(pv, dict(zip(nm, df)))] if ref.p[nm[0]].touched else []))
            hist, seen = [], set()
            ears = {}                   # (instance, parameter): listeners that are attached
            gone = []                   # listeners that were removed, and what they had heard by then
            busy = rng.random() < .5    # many listeners
            last_range = {}
            for step in range(int(rng.integers(10, 60))):
                inst, ref, saved = insts[int(rng.integers(len(insts)))]
                n = str(rng.choice(ref.names))
                p = ref.p[n]
                op = str(rng.choice(OPS)) if rng.random() < .6 else str(rng.choice(
                    ['inf_next', 'next_step', 'linstep', 'vary', 'set_value', 'logstep', 'prev_step'] if ref.order['stepping'] else
                    ['linstep', 'vary', 'logstep', 'assign', 'range']))

                def value():
                    r = rng.random()
                    if p.bounded and r < .5:
                        return float(rng.uniform(p.lo, p.hi))
                    if p.bounded and r < .65:
                        return [p.lo, p.hi][int(rng.integers(2))]
                    if p.bounded and r < .75:
                        return float(np.nextafter(p.lo, -np.inf) if rng.random() < .5 else np.nextafter(p.hi, np.inf))
                    if r < .8:
                        return int(rng.integers(-5, 6))
                    return float(rng.normal() * 10 ** rng.uniform(-2, 2))
                before = {m: repr(ref.p[m].state()) for m in ref.names}
                was = {m: (float(getattr(inst, m)), getattr(inst, m).status) for m in ref.names if (id(inst), m) in ears}
                heard = {key: [e.n for e in es] for key, es in ears.items()}
                inst.__dict__['log'] = []
                want = None             # refused, or what the operation should return
                refused = False
                bumped = False
                args = ()

                def do(fref, freal):
                    nonlocal refused
                    try:
                        r = fref()
                    except Refused:
                        refused = True
                        r = None
                    if refused:
                        with quiet():
                            mon.raises(ANY, freal, 'refusal of ' + op, history=hist[-12:])
                        return None
                    with quiet():
                        got = freal()
                    return got
                h = (lambda: getattr(inst, n))
                if op == 'fix':
                    v = value()
                    args = (v,)
                    # a handler exists only after the first access
                    ref.touch(n)
                    h()
                    do(lambda: ref.fix(n, v), lambda: h().fix(v))
                elif op == 'fix0':
                    do(lambda: ref.fix(n), lambda: h().fix())
                elif op == 'assign':
                    v = value()
                    args = (v,)
                    do(lambda: ref.fix(n, v), lambda: setattr(inst, n, v))
                elif op == 'range':
                    c = p.value if rng.random() < .8 else value()
                    a = c - abs(rng.normal()) * 10 ** rng.uniform(-1, 2)
                    b = c + abs(rng.normal()) * 10 ** rng.uniform(-1, 2)
                    if rng.random() < .3:
                        a, b = b, a
                    args = (a, b)
                    if rng.random() < .1:
                        ref.touch(n)
                        mon.raises(ANY, lambda: h().range(1., 2., 3.), 'a range of three numbers')
                    do(lambda: ref.range(n, a, b), (lambda: h().range(a, b)) if rng.random() < .5 else (lambda: h().range((a, b))))
                elif op in ('linstep', 'logstep'):
                    log = op == 'logstep'
                    lo, hi = value(), value()
                    if log and rng.random() < .8:
                        s = np.sign(p.hi) if p.bounded and p.lo * p.hi > 0 else 1.
                        lo, hi = s * abs(lo), s * abs(hi)
                    if rng.random() < .7:
                        lo, hi = min(lo, hi), max(lo, hi)
                    if rng.random() < .2:
                        lo = None
                    if rng.random() < .2:
                        hi = None
                    if (p.lo if lo is None else lo) == (p.hi if hi is None else hi) != None:
                        continue            # all steps the same
                    steps = int(rng.integers(2, 6)) if rng.random() < .8 else int(rng.integers(6, 60))
                    args = (lo, hi, steps)
                    if rng.random() < .15:
                        steps, args = 10, (lo, hi)      # the default
                        if lo is None and hi is None:
                            args = ()
                    do(lambda: ref.step(n, lo, hi, steps, log), lambda: getattr(h(), 'step' if not log and rng.random() < .3
                                                                               else op)(*args))
                elif op == 'vary':
                    start = None if rng.random() < .4 else value()
                    delta = None if rng.random() < .4 else float(10 ** rng.uniform(-2, 1))
                    rg = None
                    if rng.random() < .5:
                        c = p.value if rng.random() < .8 else value()
                        rg = (c - float(10 ** rng.uniform(-1, 1)), c + float(10 ** rng.uniform(-1, 1)))
                        rg = rg if rng.random() < .8 else rg[::-1]
                        if rng.random() < .5:
                            start = float(rng.uniform(min(rg), max(rg)))
                    args = (start, delta, rg)
                    do(lambda: ref.vary(n, start, delta, rg), lambda: h().vary(start, delta, rg))
                elif op == 'set_value':
                    v = value()
                    args = (v,)
                    do(lambda: ref.set_value(n, v), lambda: h().set_value(v))
                elif op in ('next_step', 'prev_step', 'first_step', 'last_step'):
                    do(lambda: ref.move(n, op), lambda: getattr(h(), op)())
                elif op == 'inf_next':
                    if not ref.order['stepping']:
                        continue
                    for _ in range(int(rng.integers(1, 40))):
                        more = ref.next_step()
                        mon.count('inference steps')
                        if more:
                            inst.next_step()
                        else:
                            mon.raises(StopStepping, inst.next_step, 'the end of the grid')
                            mon.count('grids exhausted')
                        compare(inst, ref, 'next_step', 1e-11)
                elif op == 'inf_reset':
                    ref.reset()
                    inst.reset_steps()
                elif op == 'get_params':
                    for m in ref.names:
                        ref.touch(m)
                    pv = inst.get_params()
                    vals = {m: float(getattr(inst, m)) for m in ref.names}
                    mon.check({m: getattr(pv, m) for m in pv.names} == vals, 'get_params stores the values')
                    saved.append((pv, vals))
                    s = str(pv)
                    mon.check(all('%s = %s' % (m, vals[m]) in s for m in ref.names), 'a snapshot prints its values', text=s)
                elif op == 'set_params':
                    if not saved:
                        continue
                    pv, vals = saved[int(rng.integers(len(saved)))]
                    mon.check({m: getattr(pv, m) for m in ref.names} == vals, 'a snapshot does not change later')
                    for m in ref.names:
                        ref.touch(m)
                    r0 = refused
                    do(lambda: ref.set_params(vals), lambda: inst.set_params(pv))
                    if refused == r0:
                        mon.count('snapshots restored')
                elif op == 'score':
                    for m in ref.names:
                        if m in ns['SIG']:
                            ref.touch(m)
                    inst.score()
                elif op == 'stale':
                    v = h()
                    ref.touch(n)
                    f = float(v)
                    w = value()
                    if not p.inside(w):
                        continue
                    ref.fix(n, w)
                    v.fix(w)
                    mon.check(float(v) == f and float(h()) == float(w), 'a value read earlier stays what it was')
                elif op == 'arith':
                    v = h()
                    ref.touch(n)
                    f = v.copy_value()
                    mon.check(v + 1 == f + 1 and 2 * v == 2 * f and v - v == 0 and (-v) == -f and np.sin(v) == np.sin(f)
                              and np.allclose(v * np.arange(3.), f * np.arange(3.)), 'a parameter is a number in expressions')
                elif op == 'check':
                    ref.touch(n)
                    pc = float(rng.uniform(0, 60))
                    if rng.random() < .2:
                        pc = 0.
                    if p.status != 'varying':
                        mon.raises(ANY, lambda: h().check(pc), 'check of a parameter that does not vary')
                    elif p.lo < p.hi:
                        true = 100 * min(p.value - p.lo, p.hi - p.value) / (p.hi - p.lo)
                        if abs(true - 1) > 1e-6:
                            mon.check(bool(h().check()) == (true >= 1.), 'check of the distance from the ends, 1 %', true=true)
                        if pc == 0. and p.inside(p.value):
                            mon.check(bool(h().check(pc)), 'a value in the range is no less than 0 % from its ends')
                        if abs(true - pc) > 1e-6:
                            mon.check(bool(h().check(pc)) == (true >= pc), 'check of the distance from the ends', true=true, pc=pc)
                elif op == 'listen':
                    ref.touch(n)
                    mine = ears.setdefault((id(inst), n), [])
                    for _ in range(int(rng.integers(1, 6)) if busy else 1):
                        mine.append(Heard())
                        h().add_listener(mine[-1])
                    if rng.random() < .3:
                        h().add_listener(mine[int(rng.integers(len(mine)))])     # once is enough
                    was, heard = {}, {}
                elif op == 'unlisten':
                    ref.touch(n)
                    mine = ears.get((id(inst), n), [])
                    if not mine:
                        h().del_listener(Heard())
                    else:
                        e = mine.pop(int(rng.integers(len(mine))))
                        h().del_listener(e)
                        gone.append((e, e.n))
                    was, heard = {}, {}
                elif op == 'show':
                    for m in ref.names:
                        ref.touch(m)
                    with quiet() as s:
                        inst.show()
                        inst.show_status()
                    lines = s.getvalue().splitlines()
                    for m in ref.names:
                        mon.check(any(l.startswith('%s = %s' % (m, float(getattr(inst, m)))) for l in lines),
                                  'show prints the values', param=m, text=s.getvalue())
                        t = getattr(inst, m).show()
                        mon.check(t.startswith('%s = %s' % (m, float(getattr(inst, m)))) and
                                  (not doc[names.index(m)] or 'doc of ' + m in t), 'a parameter shows its name, value and doc', text=t)
                    for key, head in (('fixed', 'Fixed'), ('stepping', 'Stepping'), ('varying', 'Varying')):
                        row = [l for l in lines if l.startswith(head + ' params')]
                        mon.check(len(row) == 1 and all(repr(m) in row[0] for m in ref.order[key]) and
                                  row[0].count("'") == 2 * len(ref.order[key]), 'show_status prints the lists', row=row)
                hist.append((op, n, args, 'refused' if refused else 'done'))
                mon.note(history=hist[-12:], names=ref.names)
                mon.count('operations')
                seen.add((op, p.status, refused))
                mon.seen('operation, status, refused', (op, p.status, refused))
                if refused:
                    mon.count('refusals')
                compare(inst, ref, ('after a refused ' if refused else 'after ') + op, 1e-11)
                # notifications: every parameter whose value is new was reported, and the last report has the value
                log = inst.__dict__['log']
                for m in ref.names:
                    if repr(ref.p[m].state()) != before[m] and ref.p[m].touched:
                        mon.count('changes of status')
                    mine = [v for (q, v) in log if q == m]
                    if mine:
                        mon.count('notifications', len(mine))
                        if ref.p[m].touched:
                            mon.check(mine[-1] == float(getattr(inst, m)), 'a change is reported with the new value', param=m)
                    if not refused and op in ('fix', 'assign', 'set_value', 'linstep', 'logstep', 'next_step', 'prev_step') and m == n:
                        mon.check(bool(mine), 'a change of value is reported', param=m, op=op)
                for m, (v0, st0) in was.items():
                    es = ears[id(inst), m]
                    new = [e.n - n0 for e, n0 in zip(es, heard[id(inst), m])]
                    if (float(getattr(inst, m)), getattr(inst, m).status) != (v0, st0):
                        mon.check(all(new), 'every listener hears of a change', param=m, op=op, heard=new)
                        mon.count('changes heard by listeners', len(new))
                    mon.check(len(set(new)) < 2, 'listeners hear the same', param=m, op=op, heard=new)
                for key, es in ears.items():
                    if key[0] != id(inst) and key in heard:
                        mon.check(heard[key] == [e.n for e in es], 'listeners to another instance hear nothing', op=op)
                for e, n0 in gone:
                    mon.check(e.n == n0, 'a listener that was removed hears nothing', before=n0, after=e.n)
                # what happens to one instance does not show in another
                for other, oref, _ in insts:
                    if other is not inst:
                        compare(other, oref, 'another instance', 1e-11)
            if any(s[2] for s in seen) and any(s[1] == 'stepping' for s in seen) and any(s[0] == 'vary' for s in seen):
                mon.hit(i, tuple(names), len(hist))
            inst, ref, _ = insts[0]
            n = ref.names[0]
            if ref.p[n].status == 'fixed' and not ref.p[n].bounded:
                heard = Heard()
                v = getattr(inst, n)
                v.add_listener(heard)
                v.add_listener(heard)
                setattr(inst, n, 3.)
                got = heard.n
                mon.check(got > 0, 'a listener hears of a change')
                getattr(inst, n).del_listener(heard)
                setattr(inst, n, 4.)
                mon.check(heard.n == got, 'a listener that was removed hears nothing', before=got, after=heard.n)
                getattr(inst, n).del_listener(heard)
                mon.count('listeners')
            if i % 40 == 0:
                mon.sample(names=names, operations=len(hist), tail=hist[-5:])

    # models whose parameters are duplicated are refused
    for i, rng in mon.cases('duplicate', 8, 8):
        with mon.case('duplicate', i):
            ns = build(pie, '''
class M(SignalModel):
    a = RealParam(1.)
    def signal(self, t):
        return self.a
class D(PredictorSet):
    d = SampledGaussian(np.array([0.]), np.array([1.]), np.array([1.]))
    a = RealParam(2.)
class I(ChisqrInference, M, D):
    pass
''')
            mon.raises(pie.InferenceError, ns['I'], 'a name used twice')

"""C15: saved states of the random number generator."""
import contextlib
import io
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

import numpy as np

RULE = ('histories of draws of several kinds, saves, restores and restores of backups, in this process and in new ones, against '
        'recorded sequences; non-trivial: a restore that was followed by draws')
ASSUMPTIONS = ['the generator in use is the global Mersenne twister']


def minimums(tier):
    return {'saves': 800, 'restores': 1000, 'draws compared': 10000, 'with a pending normal deviate': 200, 'new processes': 8,
            'backups restored': 100, 'files missing': 40}


KINDS = ['random', 'normal', 'randint', 'poisson', 'permutation', 'gamma', 'choice', 'multinomial']


def draw(kind, n):
    r = np.random
    if kind == 'random':
        return r.random_sample(n)
    if kind == 'normal':
        return r.normal(size=n)
    if kind == 'randint':
        return r.randint(0, 1000, n)
    if kind == 'poisson':
        return r.poisson(7.5, n)
    if kind == 'permutation':
        return r.permutation(n)
    if kind == 'gamma':
        return r.gamma(2.5, size=n)
    if kind == 'choice':
        return r.choice(50, n)
    return r.multinomial(20, [.2, .3, .5], n)


def run(mon):
    from inference.utils.rng import save_rng, restore_rng
    default = '.numpy-rng-state'

    def hush(f, *a, **k):
        with contextlib.redirect_stdout(io.StringIO()):
            return f(*a, **k)

    def plan(rng):
        return [(str(rng.choice(KINDS)), int(rng.integers(1, 8))) for _ in range(int(rng.integers(1, 6)))]

    for i, rng in mon.cases('history', 300, 12000):
        d = tempfile.mkdtemp(dir=os.getcwd())
        here = os.getcwd()
        os.chdir(d)
        try:
            with mon.case('history', i):
                np.random.seed(int(rng.integers(2 ** 31)))
                model, ops = {}, []         # file -> full state of the generator
                for _ in range(int(rng.integers(5, 25))):
                    r = rng.random()
                    name = default if rng.random() < .5 else str(rng.choice(['state', 'other.rng']))
                    given = () if name == default and rng.random() < .7 else (name,)
                    if r < .3:
                        for k, n in plan(rng):
                            draw(k, n)
                        op = 'draw'
                    elif r < .6:
                        before = np.random.get_state()
                        hush(save_rng, *given)
                        after = np.random.get_state()
                        mon.check(before[2:] == after[2:] and np.array_equal(before[1], after[1]), 'saving does not disturb the sequence')
                        if name in model:
                            if name + '.1' in model:
                                model[name + '.2'] = model[name + '.1']
                            model[name + '.1'] = model[name]
                        model[name] = before
                        mon.count('saves')
                        if before[3]:
                            mon.count('with a pending normal deviate')
                        op = 'save ' + name
                    else:
                        if model and rng.random() < .8:
                            name = str(rng.choice(sorted(model)))
                            if name.endswith(('.1', '.2')):
                                mon.count('backups restored')
                        given = () if name == default and rng.random() < .7 else (name,)
                        before = np.random.get_state()
                        kw = {} if rng.random() < .5 else {'notify': bool(rng.random() < .5)}
                        hush(restore_rng, *given, **kw)
                        op = 'restore ' + name
                        if name not in model:
                            # keeps the current state, and saves it
                            after = np.random.get_state()
                            mon.check(before[2:] == after[2:] and np.array_equal(before[1], after[1]), 'nothing to restore')
                            model[name] = before
                            mon.count('files missing')
                        p = plan(rng)
                        got = [draw(k, n) for k, n in p]
                        keep = np.random.get_state()
                        np.random.set_state(model[name])
                        want = [draw(k, n) for k, n in p]
                        np.random.set_state(keep)
                        mon.check(all(np.array_equal(a, b) for a, b in zip(got, want)), 'the sequence goes on as when it was saved',
                                  plan=p, pending=model[name][3])
                        mon.count('restores')
                        mon.count('draws compared', sum(n for _, n in p))
                        mon.hit(i, len(ops))
                    ops.append(op)
                    mon.note(ops=ops[-10:])
                    mon.check(sorted(os.listdir('.')) == sorted(model), 'the files', got=sorted(os.listdir('.')), want=sorted(model))
                if i % 25 == 0 and model:
                    # in a new process
                    name = sorted(model)[0]
                    p = plan(rng)
                    code = ('import sys, pickle\nsys.path.insert(0, %r)\nfrom checks.c15_rng import draw\n'
                            'from inference.utils.rng import restore_rng\nrestore_rng(%r, notify=False)\n'
                            'pickle.dump([draw(k, n) for k, n in %r], open("out.pkl", "wb"))\n' % (
                                os.path.dirname(os.path.dirname(os.path.abspath(__file__))), name, p))
                    r = subprocess.run([sys.executable, '-c', code], capture_output=True, text=True)
                    mon.require(r.returncode == 0, 'restoring in a new process', error=r.stderr[-500:])
                    got = pickle.load(open('out.pkl', 'rb'))
                    np.random.set_state(model[name])
                    mon.check(all(np.array_equal(a, draw(k, n)) for a, (k, n) in zip(got, p)), 'the sequence in a new process')
                    mon.count('new processes')
                if i % 40 == 0:
                    mon.sample(ops=ops)
        finally:
            os.chdir(here)
            shutil.rmtree(d)

    for i, rng in mon.cases('foreign', 16, 100):
        with mon.case('foreign', i):
            with open('foreign', 'wb') as f:
                pickle.dump(('PCG64', (np.arange(624, dtype=np.uint32), 3)), f)
            before = np.random.get_state()
            mon.raises(ValueError, lambda: hush(restore_rng, 'foreign'), 'a state of another generator')
            after = np.random.get_state()
            mon.check(before[2:] == after[2:] and np.array_equal(before[1], after[1]), 'a refusal leaves the generator')
            os.remove('foreign')

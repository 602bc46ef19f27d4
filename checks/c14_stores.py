"""C14: stores of arrays and attributes, and the backups of the files they write."""
import gzip
import io
import os
import pickle
import shutil
import sys
import tempfile

import numpy as np

RULE = ('histories of assigning, reading, saving and loading by several stores that share files, with failing saves and '
        'crashes at every line of a save, against a model of the files; non-trivial: a history with a save over an '
        'existing version')
ASSUMPTIONS = ['attribute names are not those of methods of the store', 'files are not altered by others', 'arrays are plain ndarrays',
               'a crash ends the process; the operating system keeps what was written']


def minimums(tier):
    return {'saves': 800, 'versions checked': 6000, 'failed saves': 150, 'crashes': 60, 'loads': 500, 'values compared': 5000,
            'files opened safely': 200, 'tables read': 40}


class Unsavable:
    def __reduce__(self):
        raise RuntimeError('cannot be pickled')


def rand_array(rng):
    k = int(rng.integers(9))
    shape = tuple(int(v) for v in rng.integers(0, 5, int(rng.integers(0, 4))))
    if k == 0:
        return rng.normal(size=shape) if shape else np.array(rng.normal())
    if k == 1:
        return rng.integers(-9, 9, shape or (3,))
    if k == 2:
        return rng.normal(size=(3, 4)).astype(np.float32)[::-1, ::2]
    if k == 3:
        return np.asfortranarray(rng.normal(size=(3, 2)))
    if k == 4:
        return rng.normal(size=4) + 1j * rng.normal(size=4)
    if k == 5:
        return np.array(['a', 'bcd', 'α'])[:int(rng.integers(1, 4))]
    if k == 6:
        return np.array([(1, 2.5), (3, 4.5)], dtype=[('i', int), ('x', float)])
    if k == 7:
        return rng.random(5) < .5
    return np.array([1, 'two', None, (3, 4)], dtype=object)


def rand_value(rng):
    k = int(rng.integers(7))
    if k < 2:
        return rand_array(rng)
    return [None, 42, 'text', {'a': [1, 2.5], 'b': (None, 'x')}, [float(v) for v in rng.normal(size=3)]][k - 2]


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return False
        if a.dtype != b.dtype or a.shape != b.shape:
            return False
        return a.tolist() == b.tolist()
    return type(a) is type(b) and a == b


def copy(v):
    return v.copy() if isinstance(v, np.ndarray) else pickle.loads(pickle.dumps(v))


NAMES = ['a', 'b', 'data', 'file', 'x1', 'arr_0', 'files', 'f', 'name', 'α', 'A', 'allow_pickle', 'mode', 'args']


def number(rng):
    """A text of a number, and the number"""
    r = int(rng.integers(6))
    if r == 0:
        v = float(rng.integers(-9, 10)) / float(rng.choice([1, 2, 4]))
        t = str(rng.choice(['%r', '%+g', '%.3f', '%09.3f', '%.2e', '%.1E'])) % v
        return t, float(t)
    if r == 1:
        t = str(rng.choice(['-0', '0', '-.5', '.25', '5.', '+3', '-0.0', '1e300', '-1e-300', '1E5', 'nan', 'inf', '-inf', '00012', '-007.5']))
        return t, float(t)
    v = float(rng.normal() * 10. ** rng.integers(-20, 20))
    return repr(v), v


def integer(rng):
    v = int(rng.integers(-10 ** 9, 10 ** 9)) if rng.random() < .5 else int(rng.integers(-99, 100))
    t = str(rng.choice(['%d', '%d', '%+d', '%06d'])) % v
    return t, v


def word(rng):
    t = ''.join(rng.choice(list('abc-019_#,;\'"é'), int(rng.integers(1, 9))))
    return t, t


KINDS = {
    'float': (float, number, 'f'), 'int': (int, integer, 'i'), 'str': (str, word, 'U'),
    'complex': (complex, lambda r: (lambda a, b: (repr(complex(a, b)).strip('()'), complex(a, b)))(float(r.normal()), float(r.normal())), 'c'),
    'hex': (lambda t: int(t, 16), lambda r: (lambda v: (hex(v), v))(int(r.integers(0, 10 ** 6))), 'i'),
    'twice': (lambda t: 2 * float(t), lambda r: (lambda v: (repr(v), 2 * v))(float(r.normal())), 'f'),
}


def run(mon):
    from inference.utils import ioutils
    from inference.utils.ioutils import ArrayStore, AttrStore, backup, safe_open, read_column_vectors
    EXT = {ArrayStore: '.npz', AttrStore: '.pkl'}
    src = os.path.realpath(ioutils.__file__)

    class Disk:
        """What the files should hold"""

        def __init__(self):
            self.f = {}

        def backup(self, name):
            if name in self.f:
                if name + '%' in self.f:
                    self.f[name + '%%'] = self.f.pop(name + '%')
                self.f[name + '%'] = self.f.pop(name)

        def save(self, name, content):
            self.backup(name)
            self.f[name] = content

    def read(path):
        """The content of an archive, read without the package"""
        if '.npz' in path:
            with np.load(path, allow_pickle=True) as z:
                return {k: z[k] for k in z.files}
        with open(path, 'rb') as f:
            return pickle.load(f)

    def equal(got, want):
        return set(got) == set(want) and all(same(got[k], want[k]) for k in want)

    def verify(disk, d, what):
        files = sorted(os.listdir(d))
        mon.check(files == sorted(disk.f), what + ': the files', got=files, want=sorted(disk.f))
        for n in files:
            if n in disk.f:
                try:
                    got = read(os.path.join(d, n))
                except Exception as e:
                    mon.violate(what + ': a file cannot be read', file=n, error=repr(e))
                    continue
                mon.check(equal(got, disk.f[n]), what + ': the content of a file', file=n, got=got, want=disk.f[n])
                mon.count('versions checked')

    for i, rng in mon.cases('history', 480, 12000):
        d = tempfile.mkdtemp(dir=os.getcwd())
        here = os.getcwd()
        try:
            with mon.case('history', i):
                cls = [ArrayStore, AttrStore][int(rng.integers(2))]
                ext = EXT[cls]
                rel = rng.random() < .5
                if rel:
                    os.chdir(d)

                def path(name, bare):
                    p = name if rel else os.path.join(d, name)
                    return p if bare else p + ext
                val = rand_array if cls is ArrayStore else rand_value
                disk = Disk()
                stores = []         # (store, model of its content, file)
                saves, ops = 0, []
                for _ in range(int(rng.integers(6, 30))):
                    r = rng.random()
                    if not stores or r < .08:
                        kw = {}
                        if cls is AttrStore and rng.random() < .5:
                            kw = {n: val(rng) for n in ('k1', 'a')}
                        stores.append((cls(**kw), dict(kw), None))
                        op = 'new'
                    elif r < .25 and disk.f:
                        base = sorted(n for n in disk.f if not n.endswith('%'))
                        if not base:
                            continue
                        n = str(rng.choice(base))
                        op = 'load ' + n
                        s = cls(path(n[:-4], rng.random() < .5))
                        stores.append((s, {k: copy(v) for k, v in disk.f[n].items()}, n))
                        mon.count('loads')
                    elif r < .5:
                        s, m, f = stores[int(rng.integers(len(stores)))]
                        n, v = str(rng.choice(NAMES)), val(rng)
                        setattr(s, n, v)
                        m[n] = v
                        op = 'set ' + n
                    elif r < .58:
                        s, m, f = stores[int(rng.integers(len(stores)))]
                        c = [n for n in sorted(m) if isinstance(m[n], np.ndarray) and m[n].dtype == float and m[n].size]
                        if not c:
                            continue
                        n = str(rng.choice(c))
                        v = getattr(s, n)
                        v.flat[0] = 17.25
                        m[n] = v
                        op = 'alter ' + n
                    elif r < .75:
                        s, m, f = stores[int(rng.integers(len(stores)))]
                        op = 'read'
                        for n in NAMES:
                            if rng.random() < .3:
                                if n in m:
                                    got = getattr(s, n)
                                    mon.check(same(got, m[n]), 'a value read', name=n, got=got, want=m[n])
                                    mon.check(getattr(s, n) is got, 'a value read twice is the same object')
                                else:
                                    mon.check(not hasattr(s, n), 'a name that was never set', name=n)
                                mon.count('values compared')
                        c = s.contents()
                        mon.check(sorted(c) == sorted(m), 'contents lists the names once', got=c, want=sorted(m))
                        if cls is ArrayStore:
                            mon.raises(ValueError, lambda: setattr(s, 'a', [1, 2]), 'a list in an ArrayStore')
                            mon.check(('a' in m) == hasattr(s, 'a') and ('a' not in m or same(s.a, m['a'])), 'a refused value changes nothing')
                    else:
                        s, m, f = stores[int(rng.integers(len(stores)))]
                        name = f if f and rng.random() < .6 else None
                        target = f if name else str(rng.choice(['one', 'two', 'a.b', 'data' + ext])) + ext
                        target = target.replace(ext + ext, ext)
                        args = () if name else (path(target[:-4], rng.random() < .5),)
                        if f is None and rng.random() < .2:
                            mon.raises(ValueError, lambda: s.save(), 'a store without a file')
                        q = rng.random()
                        if q < .15:
                            op = 'failing save'
                            v = np.array([1, Unsavable()], dtype=object) if cls is ArrayStore else [1, Unsavable()]
                            had = 'bad' in m
                            setattr(s, 'bad', v)
                            for _ in range(int(rng.integers(1, 4))):
                                mon.raises(RuntimeError, lambda: s.save(*args), 'a value that cannot be saved')
                                mon.count('failed saves')
                            good = np.arange(2.) if cls is ArrayStore else 'good now'
                            setattr(s, 'bad', good)
                            m['bad'] = good
                        elif q < .3:
                            op = 'crash'
                            at = int(rng.integers(1, 50))
                            sys.stdout.flush()
                            pid = os.fork()
                            if pid == 0:
                                left = [at]

                                def tr(frame, event, arg):
                                    if os.path.realpath(frame.f_code.co_filename) != src:
                                        return None

                                    def line(fr, ev, ar):
                                        if ev == 'line':
                                            left[0] -= 1
                                            if left[0] <= 0:
                                                os._exit(9)
                                        return line
                                    return line
                                try:
                                    sys.settrace(tr)
                                    s.save(*args)
                                finally:
                                    os._exit(0)
                            st = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
                            if st == 9:
                                mon.count('crashes')
                                # the last version is under its name or in the first backup, and is complete; so are the rest
                                want = disk.f.get(target)
                                have = {}
                                for n in os.listdir(d):
                                    try:
                                        have[n] = read(os.path.join(d, n))
                                    except Exception:
                                        have[n] = None
                                if want is not None:
                                    ok = [n for n in (target, target + '%') if have.get(n) is not None and equal(have[n], want)]
                                    mon.check(bool(ok), 'a crash during a save leaves the last version', line=at, file=target,
                                              there=sorted(have))
                                    old = disk.f.get(target + '%')
                                    if old is not None:
                                        mon.check(any(have.get(n) is not None and equal(have[n], old) for n in (
                                            target + '%', target + '%%')), 'a crash during a save leaves the version before the last',
                                            line=at, file=target, there=sorted(have))
                                for n in disk.f:
                                    if not n.startswith(target):
                                        mon.check(have.get(n) is not None and equal(have[n], disk.f[n]), 'a crash leaves other files',
                                                  file=n)
                                # start again from what is there
                                for n in os.listdir(d):
                                    if have.get(n) is None or not n.replace('%', '').endswith(ext):
                                        os.remove(os.path.join(d, n))
                                disk.f = {n: have[n] for n in os.listdir(d)}
                            else:
                                mon.require(st == 0, 'a save in another process', status=st)
                                disk.save(target, {k: copy(v) for k, v in m.items()})
                                mon.count('saves')
                        else:
                            op = 'save ' + target
                            if target in disk.f:
                                mon.hit(i, target, len(ops))
                            s.save(*args)
                            disk.save(target, {k: copy(v) for k, v in m.items()})
                            mon.count('saves')
                            saves += 1
                    ops.append(op)
                    mon.note(ops=ops[-14:], store=cls.__name__)
                    verify(disk, d, 'after ' + op.split()[0])
                # every store still has what it had
                for s, m, f in stores:
                    for n in m:
                        mon.check(same(getattr(s, n), m[n]), 'a store keeps its values', name=n)
                        mon.count('values compared')
                if i % 40 == 0:
                    mon.sample(store=cls.__name__, ops=ops, files=sorted(disk.f))
                del stores
        finally:
            os.chdir(here)
            shutil.rmtree(d)

    for i, rng in mon.cases('missing', 16, 100):
        with mon.case('missing', i):
            for cls in (ArrayStore, AttrStore):
                mon.raises(OSError, lambda: cls('no such file'), 'a file that is not there')
                mon.raises(OSError, lambda: cls('no such file' + EXT[cls]), 'a file that is not there')

    for i, rng in mon.cases('safe_open', 80, 2000):
        d = tempfile.mkdtemp(dir=os.getcwd())
        try:
            with mon.case('safe_open', i):
                disk = Disk()
                for k in range(int(rng.integers(3, 9))):
                    name = str(rng.choice(['p.txt', 'q']))
                    p = os.path.join(d, name)
                    text = 'version %d' % k
                    h = int(rng.integers(6))
                    if h == 0:
                        with safe_open(p) as f:
                            f.write(text)
                    elif h == 1:
                        with safe_open(p, binary=True) as f:
                            f.write(text.encode())
                    elif h == 2:
                        with safe_open(p, 'b') as f:
                            f.write(text.encode())
                    elif h == 3:
                        with safe_open(p, opener=open, mode='w', encoding='utf-16') as f:
                            f.write(text)
                    elif h == 4:
                        with safe_open(p, False, gzip.open, 'wt', compresslevel=2) as f:
                            f.write(text)
                    else:
                        backup(p)
                    disk.backup(name)
                    if h < 5:
                        disk.f[name] = (text, h)
                    mon.count('files opened safely')
                    files = sorted(os.listdir(d))
                    mon.check(files == sorted(disk.f), 'versions of a file', got=files, want=sorted(disk.f))
                    for n in files:
                        raw = open(os.path.join(d, n), 'rb').read()
                        t, how = disk.f[n]
                        got = raw.decode('utf-16') if how == 3 else gzip.decompress(raw).decode() if how == 4 else raw.decode()
                        mon.check(got == t, 'the content of a version', file=n, got=got, want=t)
                        mon.count('versions checked')
                mon.hit('s', i)
        finally:
            shutil.rmtree(d)

    for i, rng in mon.cases('table', 64, 1000):
        with mon.case('table', i):
            n, nc = int(rng.integers(1, 20)), int(rng.integers(1, 5))
            # the kinds of columns: a converter, and texts with their values
            kinds = [KINDS[str(rng.choice(list(KINDS)))] for _ in range(nc)]
            types = [k[0] for k in kinds]
            words = [[k[1](rng) for _ in range(n)] for k in kinds]
            cols = [[w[1] for w in c] for c in words]
            extra = int(rng.integers(3))
            eol = ['\n', '\n', '\r\n'][int(rng.integers(3))]
            lines = ['  ' * int(rng.integers(2)) + [' ', '\t', '   ', ' \t '][int(rng.integers(4))].join(
                [c[row][0] for c in words] + ['9'] * extra) + ' ' * int(rng.integers(2)) for row in range(n)]
            text = eol.join(lines) + eol * int(rng.integers(2))
            mon.note(text=text)
            f = io.StringIO('# header' + eol + text)
            f.readline()
            arr = bool(rng.random() < .6)
            got = read_column_vectors(f, types, **({} if arr and rng.random() < .5 else {'as_arrays': arr}))
            mon.check(len(got) == nc and all(len(g) == n and all(a == b or (a != a and b != b) for a, b in zip(g, c))
                                             for g, c in zip(got, cols)), 'columns of a table', got=got, want=cols)
            if arr:
                mon.check(all(k[2] is None or g.dtype.kind == k[2] for g, k in zip(got, kinds)), 'types of the columns',
                          got=[str(g.dtype) for g in got])
            mon.check(all(isinstance(g, np.ndarray if arr else list) for g in got), 'type of the columns')
            mon.count('tables read')

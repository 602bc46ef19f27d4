"""Mutation campaign: python tools/mutate.py OUT.jsonl CHECKS FILE[:first-last] ... [--max N] [--seed S]

Makes small changes to files of a scratch copy of the built package (never of /repo), runs the shards of the given checks against
each until one reports a violation, and lists the changes that none reports: each is either without effect or a gap.
"""
import ast
import glob
import importlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from lib import builder, driver  # noqa: E402


def py_mutants(src):
    """(line, old line text, new source)"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode()))
    raw = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()
    out = []

    def put(n, new, label):
        a, b = span(n)
        s = raw[:a] + new.encode() + raw[b:]
        try:
            t = ast.parse(s.decode())
        except SyntaxError:
            return
        if ast.dump(t) != ast.dump(tree):
            out.append((n.lineno, label, s.decode()))
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                skip.update(ast.walk(n.body[0]))
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and '__name__' in text(n.test):
            skip.update(ast.walk(n))
        if isinstance(n, ast.Call) and text(n.func) in ('print', 'pielog.debug'):
            skip.update(ast.walk(n))
        if isinstance(n, ast.Raise):
            skip.update(ast.walk(n))
            skip.discard(n)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and text(n.value.func) in ('print', 'pielog.debug'):
            skip.add(n)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.add(n)
    BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.FloorDiv: '/', ast.Mod: '*'}
    CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is',
           ast.In: 'not in', ast.NotIn: 'in'}
    CMP2 = {ast.Lt: '>', ast.LtE: '>=', ast.Gt: '<', ast.GtE: '<='}
    for n in ast.walk(tree):
        if n in skip or not hasattr(n, 'lineno'):
            continue
        if isinstance(n, ast.BinOp):
            if type(n.op) in BIN and not isinstance(n.left, ast.Constant) or isinstance(getattr(n.left, 'value', None), (int, float)):
                put(n, '(%s) %s (%s)' % (text(n.left), BIN.get(type(n.op), '+'), text(n.right)), 'operator')
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            put(n, '%s %s %s' % (text(n.left), CMP[type(n.ops[0])], text(n.comparators[0])), 'comparison')
            if type(n.ops[0]) in CMP2:
                put(n, '%s %s %s' % (text(n.left), CMP2[type(n.ops[0])], text(n.comparators[0])), 'comparison reversed')
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            put(n, '(' + op.join('(%s)' % text(v) for v in n.values) + ')', 'and/or')
            for j in range(len(n.values)):
                put(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(
                    '(%s)' % text(v) for k, v in enumerate(n.values) if k != j) + ')', 'condition dropped')
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            if type(n.value) is int:
                put(n, str(n.value + 1), 'constant')
                if n.value > 0:
                    put(n, str(n.value - 1), 'constant')
            else:
                put(n, repr(n.value * 1.1) if n.value else '1.', 'constant')
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            put(n, str(not n.value), 'constant')
        elif isinstance(n, ast.UnaryOp):
            put(n, '(%s)' % text(n.operand), 'unary dropped')
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            put(n.test, 'True', 'always') if not isinstance(n, ast.While) else None
            put(n.test, 'False', 'never')
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Delete)):
            put(n, 'pass', 'statement dropped')
            if isinstance(n, ast.AugAssign):
                put(n, '%s = %s' % (text(n.target), text(n.value)), 'augmented to plain')
        elif isinstance(n, ast.Break):
            put(n, 'pass', 'break dropped')
        elif isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Tuple) and len(n.value.elts) == 2:
            put(n.value, '%s, %s' % (text(n.value.elts[1]), text(n.value.elts[0])), 'returned swapped')
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2:
                a = [text(x) for x in n.args]
                for j in range(len(a) - 1):
                    b = a[:]
                    b[j], b[j + 1] = b[j + 1], b[j]
                    put(n, '%s(%s)' % (text(n.func), ', '.join(b + [text_kw(k, text) for k in n.keywords])), 'arguments swapped')
            if len(n.args) == 1 and not n.keywords:
                put(n, '(%s)' % text(n.args[0]), 'call dropped')
            for k in n.keywords:
                put(n, '%s(%s)' % (text(n.func), ', '.join([text(x) for x in n.args] + [text_kw(q, text) for q in n.keywords if q is not k])),
                    'keyword dropped')
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'max', 'min', 'sum', 'lower', 'strip') and not n.args:
                put(n, '(%s)' % text(n.func.value), 'method dropped')
            swap = {'min': 'max', 'max': 'min', 'argmax': 'argmin', 'zeros': 'ones', 'floor': 'ceil'}
            if isinstance(n.func, ast.Name) and n.func.id in swap:
                put(n.func, swap[n.func.id], 'function swapped')
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                put(n.lower, '(%s)+1' % text(n.lower), 'slice')
            if n.upper is not None:
                put(n.upper, '(%s)-1' % text(n.upper), 'slice')
    return out


def text_kw(k, text):
    return '**' + text(k.value) if k.arg is None else '%s=%s' % (k.arg, text(k.value))


F_RULES = [(r'\.lt\.', '.le.'), (r'\.le\.', '.lt.'), (r'\.gt\.', '.ge.'), (r'\.ge\.', '.gt.'), (r'\.eq\.', '.ne.'), (r'\.ne\.', '.eq.'),
           (r'\.and\.', '.or.'), (r'\.or\.', '.and.'), (r'(?<=[\w)\] ])\+(?= *[\w(])', '-'), (r'(?<=[\w)\] ])-(?= *[\w(])', '+'),
           (r'(?<![*])\*(?![*])', '/'), (r'(?<=[\w)]) */(?= *[\w(])', '*'), (r'(?<![\w.])(\d+)(?![\w.])', lambda m: str(int(m.group(1)) + 1)),
           (r'(?<![\w.])(\d+)\.(?![\w])', lambda m: str(int(m.group(1)) + 1) + '.'), (r'\.not\.', ''), (r'<=', '<'), (r'>=', '>'),
           (r'(?<![<>=!-])<(?![<=])', '<='), (r'(?<![<>=-])>(?![>=])', '>='), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&')]


def line_mutants(src, fortran):
    lines = src.splitlines(keepends=True)
    out = []
    comment = False
    for k, ln in enumerate(lines):
        if fortran:
            if not ln.strip() or ln[0] in 'cC*!dD' or re.match(r'\s*!', ln):
                continue
            body = ln[6:] if len(ln) > 6 else ''
            low = body.lower()
            if re.match(r'\s*(subroutine|function|real|integer|double|logical|dimension|common|parameter|data|external|intrinsic|implicit|'
                        r'end|format|write|print|return|continue|include|character)', low):
                continue
            base = 6
        else:
            if '/*' in ln:
                comment = '*/' not in ln
                continue
            if comment:
                comment = '*/' not in ln
                continue
            if not ln.strip() or ln.lstrip().startswith(('#', '//', 'extern', 'static', 'int ', 'double ', 'long ')):
                continue
            base = 0
        for pat, rep in F_RULES:
            for m in re.finditer(pat, ln[base:], re.I):
                r = rep(m) if callable(rep) else rep
                new = ln[:base] + ln[base:][:m.start()] + r + ln[base:][m.end():]
                if fortran and len(new.rstrip('\n')) > 72:
                    continue
                if new != ln:
                    out.append((k + 1, '%s -> %s' % (m.group(0), r), ''.join(lines[:k] + [new] + lines[k + 1:])))
    return out


LOCK = threading.Lock()


def place(top, f):
    return os.path.join(top, f[8:]) if f.startswith('sandbox/') else os.path.join(top, 'inference', f)


def main():
    args = sys.argv[1:]
    opt = {'max': 60, 'seed': 1, 'jobs': 8, 'shards': 8}
    for k in list(opt):
        if '--' + k in args:
            j = args.index('--' + k)
            opt[k] = int(args[j + 1])
            del args[j:j + 2]
    outpath, checks, files = args[0], args[1].split(','), args[2:]
    scratch = tempfile.mkdtemp(prefix='vp-mut-', dir='/tmp')
    mods = {}
    for c in checks:
        name, = [os.path.basename(p)[:-3] for p in glob.glob(VERIF + '/checks/*.py') if os.path.basename(p).lower().startswith(c.lower() + '_')]
        mods[c] = (name, importlib.import_module('checks.' + name))
    legacy = [e for _, m in mods.values() for e in getattr(m, 'LEGACY', ())]
    top = builder.build(scratch, 'plain', legacy)
    todo = []
    for f in files:
        f, _, rng = f.partition(':')
        src = open(place(top, f)).read()
        ms = py_mutants(src) if f.endswith('.py') else line_mutants(src, f.endswith('.f'))
        if rng:
            a, b = map(int, rng.split('-'))
            ms = [m for m in ms if a <= m[0] <= b]
        random.Random(opt['seed']).shuffle(ms)
        print(f, len(ms), 'mutants', flush=True)
        todo += [(f, *m, src) for m in ms[:opt['max']]]
    out = open(outpath, 'a')
    tally = {}

    def one(k):
        f, line, label, new, src = todo[k]
        d = os.path.join(scratch, 'm%d' % k)
        shutil.copytree(top, d + '/pkg')
        open(place(d + '/pkg', f), 'w').write(new)
        res = 'survived'
        t0 = time.time()
        try:
            if not f.endswith('.py'):
                with LOCK:
                    exts = [e for e in builder.list_extensions(d + '/pkg') if any(s.endswith('/' + f) for s in e[2])]
                for e in exts:
                    try:
                        builder._build_one(e, 'plain', d + '/work')
                    except builder.BuildError:
                        return k, 'does not build', 0
                for path, name, sources in legacy:
                    if any(f == path + '/' + x for x in sources):
                        try:
                            builder.build_legacy(d + '/pkg', 'plain', path, name, sources, d + '/work')
                        except builder.BuildError:
                            return k, 'does not build', 0
            for c in checks:
                name, mod = mods[c]
                n = getattr(mod, 'SHARDS', 8)
                for sh in range(min(n, opt['shards'])):
                    od = d + '/out-%s-%d' % (c, sh)
                    os.makedirs(od)
                    cfg = dict(verif=VERIF, prop=c, tier='quick', seed=1, shard=sh, nshards=n, outdir=od, deadline=time.time() + 150,
                               case_cpu=min(15, getattr(mod, 'CASE_CPU', 60)), only=None, module=name, package=d + '/pkg', mode='plain')
                    env = dict(os.environ, PYTHONPATH=d + '/pkg', TMPDIR=od, HOME=od, MPLCONFIGDIR=scratch + '/mpl', VP_MODE='plain',
                               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
                    try:
                        p = subprocess.run([sys.executable, '-B', VERIF + '/lib/worker.py', json.dumps(cfg)], stdout=subprocess.PIPE,
                                           stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env, cwd=od, timeout=300)
                    except subprocess.TimeoutExpired:
                        return k, 'killed by %s: time' % c, time.time() - t0
                    rp = od + '/result.%d.json' % sh
                    if not os.path.exists(rp):
                        return k, 'killed by %s: process ended' % c, time.time() - t0
                    r = json.load(open(rp))
                    if r['violations']:
                        return k, 'killed by %s: %s' % (c, r['violations'][0]['what'][:60]), time.time() - t0
                    if r['status'] != 'done':
                        res = 'harness error in %s' % c
            return k, res, time.time() - t0
        finally:
            shutil.rmtree(d, True)
    try:
        with ThreadPoolExecutor(opt['jobs']) as pool:
            for k, res, t in pool.map(one, range(len(todo))):
                f, line, label, new, src = todo[k]
                a, b = src.splitlines(), new.splitlines()
                diff = [x for x in b if x not in a][:2] or ['(line dropped)']
                rec = dict(file=f, line=line, label=label, old=a[line - 1].strip(), new=diff[0].strip(), result=res, s=round(t, 1))
                out.write(json.dumps(rec) + '\n')
                out.flush()
                tally[res.split(':')[0]] = tally.get(res.split(':')[0], 0) + 1
                if not res.startswith('killed') and res != 'does not build':
                    print('%s:%d %s\n    - %s\n    + %s   [%s]' % (f, line, label, rec['old'], rec['new'], res), flush=True)
    finally:
        shutil.rmtree(scratch, True)
    print(tally)


if __name__ == '__main__':
    main()

"""Builds scratch copies of /repo/package outside /repo and /verif.

The setup.py files of the package are executed against a recording stand-in for numpy.distutils (numpy ships
none for Python 3.12), and the extensions found are compiled with f2py, gcc and gfortran.

Modes:
  plain   the flags of the ordinary build
  asan    C and Fortran compiled with -fsanitize=address,undefined (reports are fatal or logged via the options
          variables) -- run it with LD_PRELOAD=libasan
  bounds  Fortran compiled with -fcheck=bounds,array-temps-free checks, real argument checks and trapping of invalid
          do-loop steps: a run-time error ends the process
  poison  Fortran local variables start as NaN and -77777777, so that the use of one that was never set shows in the results
"""
import glob
import os
import runpy
import shutil
import subprocess
import sys
import sysconfig
import types
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VP_REPO', '/repo')
SUFFIX = sysconfig.get_config_var('EXT_SUFFIX')
BASE_F = '-g -ffixed-form -fno-second-underscore -fPIC'.split()
BASE_C = '-fno-strict-aliasing -g -fPIC -w'.split()
FLAGS = {
    'plain': (BASE_F + ['-O3', '-funroll-loops'], BASE_C + ['-O2'], []),
    'asan': (BASE_F + ['-O1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize=signed-integer-overflow'],
             BASE_C + ['-O1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize=signed-integer-overflow'],
             ['-fsanitize=address,undefined', '-fno-sanitize=signed-integer-overflow']),
    'bounds': (BASE_F + ['-O1', '-fcheck=bounds,do,mem,pointer', '-fbacktrace'],
               BASE_C + ['-O1'], []),
    'poison': (BASE_F + ['-O1', '-finit-real=snan', '-finit-integer=-77777777', '-finit-logical=true'], BASE_C + ['-O1'], []),
}


class BuildError(Exception):
    pass


def list_extensions(top):
    """(directory, name, sources, options) of every extension that the setup.py files under top declare."""
    found, current = [], []

    class Configuration:
        def __init__(self, package_name=None, parent_name=None, top_path=None, package_path=None, **kw):
            self.path = package_path or current[-1]

        def set_options(self, **kw):
            pass

        def add_subpackage(self, name, subpackage_path=None, standalone=False):
            path = subpackage_path or os.path.join(self.path, name)
            setup = os.path.join(path, 'setup.py')
            if os.path.exists(setup):
                configure(setup)

        def add_extension(self, name, sources, **kw):
            found.append((self.path, name, [os.path.join(self.path, s) for s in sources], kw))

        def __getattr__(self, name):
            return lambda *a, **k: None

        def todict(self):
            return {}

    def configure(setup):
        current.append(os.path.dirname(setup))
        try:
            runpy.run_path(setup, run_name='setup_recorded')['configuration']('', None)
        finally:
            current.pop()

    import numpy
    saved = {k: sys.modules.get(k) for k in ('numpy.distutils', 'numpy.distutils.misc_util')}
    distutils, misc = types.ModuleType('numpy.distutils'), types.ModuleType('numpy.distutils.misc_util')
    misc.Configuration = Configuration
    distutils.misc_util = misc
    distutils.__path__ = []
    sys.modules.update({'numpy.distutils': distutils, 'numpy.distutils.misc_util': misc})
    numpy.distutils = distutils
    try:
        configure(os.path.join(top, 'setup.py'))
    finally:
        del numpy.distutils
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    return found


def _run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-3000:]))


def _build_one(ext, mode, workroot):
    import numpy
    import numpy.f2py
    path, name, sources, kw = ext
    fflags, cflags, lflags = FLAGS[mode]
    work = os.path.join(workroot, name)
    os.makedirs(work)
    pyf = [s for s in sources if s.endswith('.pyf')]
    fortran = [s for s in sources if s.endswith(('.f', '.f90'))]
    c = [s for s in sources if s.endswith('.c')]
    inc = numpy.f2py.get_include()
    if pyf or fortran:
        _run([sys.executable, '-m', 'numpy.f2py', '--build-dir', work, *(pyf or ['-m', name, *fortran])], work)
        c = [*c, *glob.glob(work + '/*module.c'), inc + '/fortranobject.c']
        fortran = fortran + glob.glob(work + '/*-f2pywrappers.f')
    includes = ['-I' + d for d in (work, path, inc, numpy.get_include(), sysconfig.get_path('include'),
                                   *kw.get('include_dirs', []))]
    objects = []
    for s in c + fortran:
        o = os.path.join(work, os.path.basename(s) + '.o')
        comp = ['gcc', *cflags, *includes] if s.endswith('.c') else ['gfortran', *fflags]
        _run([*comp, *(kw.get('extra_compile_args') or []), '-c', s, '-o', o], work)
        objects.append(o)
    _run(['gfortran' if fortran else 'gcc', '-shared', *lflags, *objects, '-o',
          os.path.join(path, name + SUFFIX), *['-l' + x for x in kw.get('libraries', [])],
          *(kw.get('extra_link_args') or []), '-lm'], work)


def build_legacy(top, mode, path, name, sources, work):
    """Build an extension that the repository carries in source but does not build: C for Python 2, with definitions of what Python 2
    had (source that is up to date builds as it is), or Fortran."""
    import numpy
    fflags, cflags, lflags = FLAGS[mode]
    path = os.path.join(top, path[8:] if path.startswith('sandbox/') else os.path.join('inference', path))
    if any(s.endswith(('.f', '.pyf')) for s in sources):
        return _build_one((path, name, [os.path.join(path, s) for s in sources], {}), mode, work)
    work = os.path.join(work, name)
    os.makedirs(work)
    compat = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'compat')
    inc = ['-I' + d for d in (work, path, compat, numpy.get_include(), sysconfig.get_path('include'))]
    with open(os.path.join(work, 'main.c'), 'w') as f:
        f.write('#include "legacy.h"\n#include "%s"\nPyObject *PyInit_%s(void) { init%s(); return legacy_module; }\n' % (
            sources[0], name, name))
    out = os.path.join(path, name + SUFFIX)
    rest = [os.path.join(path, s) for s in sources[1:]]
    try:
        _run(['gcc', *cflags, *inc, '-shared', *lflags, os.path.join(work, 'main.c'), *rest, '-o', out, '-lm'], work)
    except BuildError as e:
        try:
            _run(['gcc', *cflags, *inc, '-shared', *lflags, os.path.join(path, sources[0]), *rest, '-o', out, '-lm'], work)
        except BuildError:
            raise e


def build(dest, mode='plain', legacy=()):
    """Copy the package to dest/<mode>/ and build its extensions there; returns the directory for PYTHONPATH."""
    top = os.path.join(dest, mode)
    shutil.copytree(os.path.join(REPO, 'package'), top,
                    ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.pyc', 'build', '*.o'))
    work = os.path.join(dest, 'work-' + mode)
    os.makedirs(work)
    exts = list_extensions(top)
    if not exts:
        raise BuildError('no extensions found')
    with ThreadPoolExecutor(8) as pool:
        list(pool.map(lambda e: _build_one(e, mode, work), exts))
    for d in sorted({path[8:] for path, name, sources in legacy if path.startswith('sandbox/')}):
        shutil.copytree(os.path.join(REPO, 'sandbox', d), os.path.join(top, d),
                        ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.pyc', 'build', '*.o'))
    for path, name, sources in legacy:
        build_legacy(top, mode, path, name, sources, work)
    shutil.rmtree(work)
    return top

"""Builds the extensions from /repo's current sources and imports the code.

The extensions are built from the .pyx files that /repo's setup.py names, in a
scratch directory under /verif/.work keyed by their content; the Python sources
are imported from /repo itself and nothing is written there.  Before the code
is imported the functions of numpy.random are wrapped: that is the seam for
randomness (see seam.py).
"""
import fcntl
import glob
import hashlib
import importlib.machinery
import importlib.util
import os
import runpy
import shutil
import sys

REPO = os.environ.get('DST_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.environ.get('DST_WORK', os.path.join(VERIF, '.work'))
PY = '/opt/venv/bin/python'

os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')


class BuildError(Exception):
    pass


def _extensions():
    """The (name, source) pairs of setup.py, with .pyx in place of .c."""
    import setuptools
    got = {}

    def fake(**kw):
        got.update(kw)
    real = setuptools.setup
    cwd = os.getcwd()
    setuptools.setup = fake
    try:
        os.chdir(REPO)
        runpy.run_path('setup.py', run_name='__main__')
    finally:
        setuptools.setup = real
        os.chdir(cwd)
    out = []
    for ext in got.get('ext_modules') or []:
        src = [s for s in ext.sources]
        for k, s in enumerate(src):
            pyx = os.path.splitext(s)[0] + '.pyx'
            if s.endswith('.c') and os.path.exists(os.path.join(REPO, pyx)):
                src[k] = pyx
        out.append((ext.name, src))
    return out


def _digest(exts):
    sha = hashlib.sha256(sys.version.encode())
    pats = ['**/*.pyx', '**/*.pxd', '**/*.pxi', '**/*.h']
    files = sorted({f for p in pats for f in glob.glob(os.path.join(REPO, 'queueing_tool', p), recursive=True)})
    for f in files:
        with open(f, 'rb') as fh:
            sha.update(os.path.relpath(f, REPO).encode() + b'\0' + fh.read() + b'\0')
    sha.update(repr(exts).encode())
    return sha.hexdigest()[:16]


def build():
    """Returns {module name: path of its shared object}."""
    sys.dont_write_bytecode = True
    exts = _extensions()
    d = os.path.join(WORK, 'ext-' + _digest(exts))
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        so = {n: os.path.join(d, n + '.so') for n, _ in exts}
        if not all(os.path.exists(p) for p in so.values()):
            procs = []
            tmp = d + '.tmp%d' % os.getpid()
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            shutil.copytree(os.path.join(REPO, 'queueing_tool'), os.path.join(tmp, 'src', 'queueing_tool'),
                            ignore=shutil.ignore_patterns('*.so', '__pycache__', 'build'))
            import subprocess
            for n, src in exts:
                log = open(os.path.join(tmp, n + '.log'), 'wb')
                procs.append((n, log, subprocess.Popen(
                    [sys.executable, os.path.abspath(__file__), '--compile', n, tmp] + src,
                    cwd=os.path.join(tmp, 'src'), stdout=log, stderr=subprocess.STDOUT)))
            bad = []
            for n, log, p in procs:
                p.wait()
                log.close()
                if p.returncode != 0:
                    bad.append(n + ': ' + open(log.name, errors='replace').read()[-1500:])
            if bad:
                shutil.rmtree(tmp, ignore_errors=True)
                raise BuildError('\n'.join(bad))
            shutil.rmtree(os.path.join(tmp, 'src'), ignore_errors=True)
            shutil.rmtree(d, ignore_errors=True)
            os.rename(tmp, d)
            # keep few old builds
            olds = sorted(glob.glob(os.path.join(WORK, 'ext-*')), key=os.path.getmtime)
            for o in olds[:-4]:
                shutil.rmtree(o, ignore_errors=True)
    return so


def _compile(name, tmp, sources):
    from setuptools import Extension
    from setuptools.dist import Distribution
    from Cython.Build import cythonize
    work = os.path.join(tmp, 'b-' + name)
    ext = Extension(name, sources, extra_compile_args=['-O1', '-w', '-g0'])
    mods = cythonize([ext], build_dir=work, quiet=True, language_level=2)
    dist = Distribution({'name': 'x', 'ext_modules': mods})
    cmd = dist.get_command_obj('build_ext')
    cmd.build_lib = os.path.join(work, 'lib')
    cmd.build_temp = os.path.join(work, 'tmp')
    cmd.ensure_finalized()
    cmd.run()
    hits = glob.glob(os.path.join(work, 'lib', '**', '*.so'), recursive=True)
    assert len(hits) == 1, hits
    shutil.copy(hits[0], os.path.join(tmp, name + '.so'))
    shutil.rmtree(work, ignore_errors=True)


class _Finder(object):
    def __init__(self, so):
        self.so = so

    def find_spec(self, name, path=None, target=None):
        p = self.so.get(name)
        if p is None:
            return None
        return importlib.util.spec_from_file_location(
            name, p, loader=importlib.machinery.ExtensionFileLoader(name, p))


qt = None


def load():
    """Imports queueing_tool from /repo with the scratch extensions."""
    global qt
    if qt is not None:
        return qt
    so = build()
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(WORK, 'nopyc')
    os.environ.setdefault('MPLCONFIGDIR', os.path.join(WORK, 'mpl'))
    import warnings
    warnings.filterwarnings('ignore')
    sys.path.insert(0, REPO)
    sys.meta_path.insert(0, _Finder(so))
    from dst import seam
    seam.install()
    import matplotlib
    matplotlib.use('Agg')
    import queueing_tool
    if not os.path.abspath(queueing_tool.__file__).startswith(os.path.abspath(REPO) + '/'):
        raise BuildError('imported %s' % queueing_tool.__file__)
    qt = queueing_tool
    return qt


if __name__ == '__main__' and len(sys.argv) > 3 and sys.argv[1] == '--compile':
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != os.path.dirname(os.path.abspath(__file__))]
    sys.dont_write_bytecode = True
    _compile(sys.argv[2], sys.argv[3], sys.argv[4:])

"""Out-of-tree builds of /repo's current working tree.

Nothing is written under /repo: sources are copied into
``/verif/.build/<content hash>/src`` and compiled there, keyed on the content
of the sources, so a changed tree is always rebuilt and an unchanged one is
reused.
"""
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('TRV_REPO', '/repo')
BUILD_ROOT = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
PY = '/opt/venv/bin/python'
CYTHON = '/opt/venv/bin/cython'
HARNESS_DIR = os.path.join(VERIF, 'harness')

WARN = ['-w']
PKG_MACROS = ['-D__TRV_VERSION__="0.5.0"', '-D__TZOFFSET__="+0000"']
OMP_MACROS = ['-DTRV_USE_OMP', '-DTRV_USE_FFTWOMP']
LIBS = ['-lfftw3_omp', '-lfftw3', '-lgsl', '-lgslcblas', '-lgomp', '-lm']

# Also conversions of floating-point values that the integer type cannot
# hold, and the bounds of library containers (within their capacity too).
SAN = ['-fsanitize=address,undefined,float-cast-overflow',
       '-fno-sanitize-recover=undefined,float-cast-overflow',
       '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS']


class BuildError(RuntimeError):
    pass


def clean_env(**kw):
    env = {
        'PATH': '/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:'
                '/usr/bin:/sbin:/bin',
        'HOME': os.environ.get('HOME', '/root'),
        'LANG': 'C.UTF-8', 'TZ': 'UTC', 'PYTHONDONTWRITEBYTECODE': '1',
        'PYTHONHASHSEED': '0', 'PYTHONNOUSERSITE': '1',
        'OMP_NUM_THREADS': '2', 'OPENBLAS_NUM_THREADS': '1',
        'OMP_WAIT_POLICY': 'passive', 'GOMP_SPINCOUNT': '0',
        'MPLBACKEND': 'Agg', 'TMPDIR': os.environ.get('TMPDIR', '/tmp'),
    }
    for key in ('VERIF_SEED', 'VERIF_TIER', 'TRV_REPO', 'VERIF_BUILD'):
        if key in os.environ:
            env[key] = os.environ[key]
    env.update({k: str(v) for k, v in kw.items()})
    return env


def _src_files():
    top = os.path.join(REPO, 'src', 'triumvirate')
    out = []
    for root, dirs, files in os.walk(top):
        dirs[:] = [d for d in dirs if d != '__pycache__']
        for f in files:
            p = os.path.join(root, f)
            if f.endswith('.so') or f.endswith('.pyc'):
                continue
            # Generated by Cython next to the .pyx (git-ignored).
            if f.endswith('.cpp') and root == top:
                continue
            out.append(p)
    return sorted(out)


def tree_hash():
    h = hashlib.sha256()
    for p in _src_files():
        h.update(os.path.relpath(p, REPO).encode())
        with open(p, 'rb') as fh:
            h.update(fh.read())
    for p in sorted(glob.glob(os.path.join(HARNESS_DIR, '*'))) + [
            os.path.abspath(__file__)]:
        if os.path.isfile(p):
            h.update(p.encode())
            with open(p, 'rb') as fh:
                h.update(fh.read())
    return h.hexdigest()[:16]


def _run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, env=clean_env(), text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout


def _pool(jobs):
    with ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(_run, *j) for j in jobs]:
            f.result()


class Build:
    """Lazily built artefacts of one source tree."""

    def __init__(self):
        self.hash = tree_hash()
        self.dir = os.path.join(BUILD_ROOT, self.hash)
        self.src = os.path.join(self.dir, 'src')
        os.makedirs(self.dir, exist_ok=True)
        if not os.path.exists(os.path.join(self.dir, '.copied')):
            shutil.rmtree(self.src, ignore_errors=True)
            for p in _src_files():
                q = os.path.join(
                    self.src, os.path.relpath(p, os.path.join(REPO, 'src')))
                os.makedirs(os.path.dirname(q), exist_ok=True)
                shutil.copy(p, q)
            open(os.path.join(self.dir, '.copied'), 'w').close()
        self.pkg = os.path.join(self.src, 'triumvirate')
        self.prune()

    def prune(self):
        """Keep only a few of the most recent builds."""
        try:
            ds = [os.path.join(BUILD_ROOT, d) for d in os.listdir(BUILD_ROOT)]
            ds = sorted((d for d in ds if os.path.isdir(d)),
                        key=os.path.getmtime, reverse=True)
            for d in ds[6:]:
                if d != self.dir and time.time() - os.path.getmtime(d) > 3600:
                    shutil.rmtree(d, ignore_errors=True)
        except OSError:
            pass

    # -- helpers ---------------------------------------------------------
    def _flags(self, san, opt):
        return (['-std=c++17', '-g1', '-fPIC'] + WARN + opt
                + (SAN if san else []))

    @staticmethod
    def _fill(fill):
        """Automatic variables start as zeros or as a pattern."""
        return ('-O2',) + (
            ('-ftrivial-auto-var-init=' + fill,) if fill else ())

    def _objs(self, name, san, ext, omp=True, opt=('-O2',)):
        """Compile every C++ library source; return the object files."""
        odir = os.path.join(self.dir, 'obj-' + name)
        stamp = os.path.join(odir, '.done')
        srcs = sorted(glob.glob(os.path.join(self.pkg, 'src', '*.cpp')))
        objs = [os.path.join(odir, os.path.basename(s)[:-4] + '.o')
                for s in srcs]
        if not os.path.exists(stamp):
            os.makedirs(odir, exist_ok=True)
            macros = list(PKG_MACROS) + (['-DTRV_EXTCALL'] if ext else [])
            if omp:
                macros += OMP_MACROS + ['-fopenmp']
            _pool([(['g++'] + self._flags(san, list(opt)) + macros + [
                '-I' + os.path.join(self.pkg, 'include'), '-c', s, '-o', o],)
                for s, o in zip(srcs, objs)])
            open(stamp, 'w').close()
        return objs

    def pyext(self, san=False, fill=''):
        """Build the Python package; return the directory to import from."""
        name = 'pysan' if san else 'py' + fill
        out = os.path.join(self.dir, name)
        stamp = os.path.join(out, '.done')
        if os.path.exists(stamp):
            return out
        pkg = os.path.join(out, 'triumvirate')
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(self.pkg, pkg, ignore=shutil.ignore_patterns('src'))
        shutil.copytree(os.path.join(self.pkg, 'src'),
                        os.path.join(pkg, 'src'))
        pyxs = sorted(glob.glob(os.path.join(pkg, '*.pyx')))
        objs = self._objs(name, san, ext=True, opt=self._fill(fill))
        _pool([([CYTHON, '-3', '--cplus', '-X', 'language_level=3',
                 '-X', 'c_string_encoding=utf-8', '-X', 'embedsignature=True',
                 p], out) for p in pyxs])
        import_np = _run([PY, '-c',
                          'import numpy; print(numpy.get_include())']).strip()
        inc = _run([PY, '-c', 'import sysconfig;'
                    'print(sysconfig.get_paths()["include"],'
                    'sysconfig.get_config_var("EXT_SUFFIX"))']).split()
        jobs, links = [], []
        for p in pyxs:
            cpp, o = p[:-4] + '.cpp', p[:-4] + '.o'
            # Sanitise only the C++ library: the generated wrappers are
            # instrumented for addresses (they touch the same memory), not
            # for UB, which CPython's own headers would trip.
            s = ['-fsanitize=address', '-fno-omit-frame-pointer'] \
                if san else []
            jobs.append((['g++', '-std=c++17', '-g1', '-fPIC', '-w', '-O1']
                         + s + PKG_MACROS + OMP_MACROS
                         + ['-DTRV_EXTCALL', '-fopenmp',
                            '-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION',
                            '-I' + os.path.join(pkg, 'include'), '-I' + out,
                            '-I' + import_np, '-I' + inc[0],
                            '-c', cpp, '-o', o],))
            links.append((['g++', '-shared', '-fopenmp']
                          + (SAN[:1] if san else [])
                          + [o, os.path.join(self.dir, 'lib%s.a' % name)]
                          + LIBS + ['-o', p[:-4] + inc[1]],))
        _pool(jobs)
        lib = os.path.join(self.dir, 'lib%s.a' % name)
        if os.path.exists(lib):
            os.remove(lib)
        _run(['ar', 'rcs', lib] + objs)
        _pool(links)
        open(stamp, 'w').close()
        return out

    def exe(self, san=False, omp=True, fill=''):
        """Build the C++ program."""
        name = 'cc' + ('san' if san else '') + ('' if omp else 'ser') + fill
        out = os.path.join(self.dir, 'trv-' + name)
        if os.path.exists(out):
            return out
        objs = self._objs(name, san, ext=False, omp=omp, opt=self._fill(fill))
        mains = sorted(glob.glob(os.path.join(self.pkg, 'main', '*.cpp')))
        omps = OMP_MACROS + ['-fopenmp'] if omp else []
        _run(['g++'] + self._flags(san, list(self._fill(fill))) + PKG_MACROS
             + omps
             + ['-I' + os.path.join(self.pkg, 'include')] + mains + objs
             + LIBS + ['-o', out + '.tmp'])
        os.rename(out + '.tmp', out)
        return out

    def tsan(self, src=None):
        """The C++ program, or /verif/harness/<src>.cpp, instrumented for
        data races, on the instrumented OpenMP runtime of the harness."""
        out = os.path.join(self.dir, 'tsan-' + (src or 'trv'))
        if os.path.exists(out):
            return out
        flags = ['g++', '-std=c++17', '-g1', '-O1', '-w', '-fopenmp',
                 '-fsanitize=thread', '-DTRV_USE_OMP'] + PKG_MACROS + [
                     '-I' + os.path.join(self.pkg, 'include')]
        odir = os.path.join(self.dir, 'obj-tsan')
        os.makedirs(odir, exist_ok=True)
        srcs = sorted(glob.glob(os.path.join(self.pkg, 'src', '*.cpp')))
        shim = os.path.join(HARNESS_DIR, 'gomp_shim.cpp')
        objs = [os.path.join(odir, os.path.basename(s)[:-4] + '.o')
                for s in srcs + [shim]]
        stamp = os.path.join(odir, '.done')
        if not os.path.exists(stamp):
            _pool([(flags + ['-c', s, '-o', o],)
                   for s, o in zip(srcs + [shim], objs)])
            open(stamp, 'w').close()
        mains = [os.path.join(HARNESS_DIR, src + '.cpp')] if src else sorted(
            glob.glob(os.path.join(self.pkg, 'main', '*.cpp')))
        o = out + '.o'
        _run(flags + ['-c', mains[0], '-o', o])
        _run(['g++', '-fsanitize=thread', o] + mains[1:] + objs
             + ['-lfftw3', '-lgsl', '-lgslcblas', '-lm', '-lpthread', '-o',
                out + '.tmp'])
        os.rename(out + '.tmp', out)
        return out

    def harness(self, src, san=False, omp=True, extra=()):
        """Build /verif/harness/<src>.cpp against the C++ library."""
        name = 'cc' + ('san' if san else '') + ('' if omp else 'ser')
        out = os.path.join(self.dir, 'h-%s-%s' % (src, name))
        if os.path.exists(out):
            return out
        objs = self._objs(name, san, ext=False, omp=omp)
        omps = OMP_MACROS + ['-fopenmp'] if omp else []
        _run(['g++'] + self._flags(san, ['-O1']) + PKG_MACROS + omps
             + list(extra)
             + ['-I' + os.path.join(self.pkg, 'include'), '-I' + HARNESS_DIR,
                os.path.join(HARNESS_DIR, src + '.cpp')] + objs
             + LIBS + ['-o', out + '.tmp'])
        os.rename(out + '.tmp', out)
        return out

    def shim(self, src):
        """Build /verif/harness/<src>.c as a library to be preloaded."""
        out = os.path.join(self.dir, 'lib%s.so' % src)
        if not os.path.exists(out):
            _run(['gcc', '-O1', '-fPIC', '-shared', os.path.join(
                HARNESS_DIR, src + '.c'), '-ldl', '-o', out + '.tmp'])
            os.rename(out + '.tmp', out)
        return out


SAN_OPTIONS = {
    'ASAN_OPTIONS': 'detect_leaks=0:halt_on_error=1:abort_on_error=0:'
                    'exitcode=99:allocator_may_return_null=1:'
                    'detect_stack_use_after_return=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=99',
}


def san_env(leaks=False, preload=True, **kw):
    """Environment for running sanitised code, failing on any report."""
    asan = subprocess.run(['g++', '-print-file-name=libasan.so'],
                          text=True, stdout=subprocess.PIPE).stdout.strip()
    ubsan = subprocess.run(['g++', '-print-file-name=libubsan.so'],
                           text=True, stdout=subprocess.PIPE).stdout.strip()
    # libstdc++ must be in the link map before ASan looks for __cxa_throw.
    stdcxx = subprocess.run(['g++', '-print-file-name=libstdc++.so.6'],
                            text=True, stdout=subprocess.PIPE).stdout.strip()
    env = clean_env(**dict(SAN_OPTIONS, OMP_WAIT_POLICY='passive',
                           GOMP_SPINCOUNT='0', **kw))
    env['ASAN_OPTIONS'] += ':detect_leaks=%d' % int(leaks)
    if preload:
        env['LD_PRELOAD'] = ':'.join([asan, ubsan, stdcxx])
        env['PYTHONMALLOC'] = 'malloc'
    return env


if __name__ == '__main__':
    t = time.time()
    b = Build()
    for what in sys.argv[1:] or ['py', 'exe']:
        if what == 'py':
            print(b.pyext())
        elif what == 'pysan':
            print(b.pyext(san=True))
        elif what == 'exe':
            print(b.exe())
        elif what == 'exesan':
            print(b.exe(san=True))
    print('built in %.1fs' % (time.time() - t))

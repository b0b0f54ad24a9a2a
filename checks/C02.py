"""Threads, schedules and repetition."""
import ctypes
import io
import os
import re
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from verifkit import prog, req, trv
from verifkit.build import PY, VERIF
from verifkit.worker import Case, Group

RULE = ('race-*: random requests (statistic, catalogue type, box, mesh, '
        'assignment, degrees, form, binning, normalisation, alignment) run '
        'by the C++ program with 2 to 6 threads under ThreadSanitizer on an '
        'instrumented OpenMP runtime that delays the start of threads at '
        'random; threads-*: random requests measured by the package with 1 '
        'to 16 threads; repeat-*: one-threaded measurements repeated in the '
        'process, in a fresh process and after other calls; program: files '
        'of repeated program runs; distinct by all parameters of the case.')
ASSUMPTIONS = ['accesses made inside FFTW and GSL are not instrumented, '
               'except those to spline accelerators']


def prepare(build):
    return {'OMP_WAIT_POLICY': 'passive', 'GOMP_SPINCOUNT': '0',
            'VERIF_EXE': build.exe(), 'VERIF_TSAN': build.tsan(),
            'VERIF_TSAN_SBT': build.tsan('sbt')}


def threads(n):
    gomp = ctypes.CDLL('libgomp.so.1')
    gomp.omp_set_num_threads(int(n))
    return gomp.omp_get_max_threads()


def crowd(c, r):
    """More objects, many sharing mesh cells."""
    for q, p in zip(r.cols, r.pos):
        n = len(q['x'])
        i = c.rng.integers(n, size=int(c.rng.integers(500, 3000)))
        far = [j for ax in 'xyz' for j in (q[ax].argmin(), q[ax].argmax())]
        i = np.concatenate([far, i])
        for k in q:
            q[k] = q[k][i]
    r.pos = [p[:1].repeat(len(q['x']), 0) for p, q in zip(r.pos, r.cols)]
    if r.nz is not None:
        r.nz = r.cols[0]['nz']


# -- races ---------------------------------------------------------------
def tsan_run(cmd, d, n, seed, stdin=None):
    rep = os.path.join(d, 'shim')
    env = dict(PATH=os.environ['PATH'], LANG='C.UTF-8', TZ='UTC',
               OMP_NUM_THREADS=str(n), SHIM_SEED=str(seed), SHIM_REPORT=rep,
               TSAN_OPTIONS='halt_on_error=0:exitcode=66:'
                            'report_signal_unsafe=0')
    p = subprocess.run(cmd, cwd=d, env=env, text=True, errors='replace',
                       input=stdin, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=180)
    if 'FATAL: ThreadSanitizer' in p.stdout:
        raise RuntimeError('ThreadSanitizer cannot run here: '
                           + p.stdout[-500:])
    regions = started = 0
    if os.path.exists(rep):
        regions, started = map(int, open(rep).read().split()[:2])
    return p, regions, started


def judge(c, p, regions, started, key):
    where = re.findall(r'#\d+ (\S.*?) (?:src|.*?)/([\w.]+:\d+)', p.stdout)
    c.check('WARNING: ThreadSanitizer' not in p.stdout, 'race/' + key,
            'race reported at %s' % ', '.join(
                '%s' % w[1] for w in where[:4]), report=p.stdout[-3500:]
            if 'WARNING: ThreadSanitizer' in p.stdout else '')
    c.count('parallel regions under ThreadSanitizer', regions)
    c.count('threads of these regions', started)


def write(c, d, r, **over):
    names = [k for k in ('x', 'y', 'z', 'nz', 'ws', 'wc') if k in r.cols[0]]
    files = ['cat%d' % i for i in range(len(r.cols))]
    for f, q in zip(files, r.cols):
        prog.write_catalogue(os.path.join(d, f), q, names)
    if r.cat == 'survey':
        w = dict(data=files[0], rand=files[1])
    else:
        w = {'rand' if r.cat == 'random' else 'data': files[0]}
    prog.write_ini(os.path.join(d, 'p.ini'), prog.settings(
        r, columns=','.join(names), **w, **over))


def race(c, kind):
    r = req.Req(c, kind, lo=4, hi=6)
    if r.conv == 'mesh-mixed' and max(
            np.ptp(trv.xyz(r.cols[1]), axis=0)) > 300.:
        r.conv = 'mesh'
    n, seed = int(c.rng.integers(2, 7)), int(c.rng.integers(1 << 30))
    c.params(threads=n, schedule=seed, **r.describe())
    d = tempfile.mkdtemp(dir=c.scratch)
    write(c, d, r)
    p, regions, started = tsan_run([os.environ['VERIF_TSAN'], 'p.ini'], d, n,
                                   seed)
    key = '%s-%s' % kind
    c.check(p.returncode in (0, 66), 'exit/' + key, 'program exits with %d: '
            '%s' % (p.returncode, p.stdout[-300:]))
    judge(c, p, regions, started, key)
    shutil.rmtree(d)


def race_vectors(c):
    """Listing of the modes or separations of each bin."""
    r = req.Req(c, [('powspec', 'sim'), ('2pcf', 'sim')][c.rng.integers(2)])
    stat = 'modes' if r.fourier else 'pairs'
    n, seed = int(c.rng.integers(2, 7)), int(c.rng.integers(1 << 30))
    c.params(threads=n, schedule=seed, stat=stat, box=r.box, ngrid=r.n,
             edges=r.edges)
    d = tempfile.mkdtemp(dir=c.scratch)
    p = prog.settings(r)
    p.update(catalogue_type='none', statistic_type=stat)
    prog.write_ini(os.path.join(d, 'p.ini'), p)
    p, regions, started = tsan_run([os.environ['VERIF_TSAN'], 'p.ini'], d, n,
                                   seed)
    c.check(p.returncode in (0, 66), 'exit/' + stat, 'program exits with '
            '%d: %s' % (p.returncode, p.stdout[-300:]))
    judge(c, p, regions, started, stat)
    shutil.rmtree(d)


def race_transform(c):
    """Spherical Bessel transforms with every extrapolation."""
    rng = c.rng
    n = 2*int(rng.integers(4, 40))
    ell, ext = int(rng.integers(0, 5)), int(rng.integers(0, 5))
    x = np.exp(np.linspace(-3., 2., n))
    a = x**rng.uniform(-1., 1.)
    if ext == 4:
        ext = 3
    cmd = [ell, 0, 1., int(rng.integers(2)), ext, rng.uniform(1., 2.),
           [0, -1, 1][rng.integers(3)], 1, n]
    th, seed = int(rng.integers(2, 7)), int(rng.integers(1 << 30))
    c.params(threads=th, schedule=seed, command=cmd)
    text = ' '.join(map(repr, map(float, cmd[2:3])))
    text = '%d %d %s %d %d %r %d %d %d\n' % (
        cmd[0], cmd[1], text, cmd[3], cmd[4], float(cmd[5]), cmd[6], cmd[7],
        n) + ''.join('%r %r 0.\n' % (float(u), float(v))
                     for u, v in zip(x, a))
    d = tempfile.mkdtemp(dir=c.scratch)
    p, regions, started = tsan_run([os.environ['VERIF_TSAN_SBT']], d, th,
                                   seed, text)
    c.check(p.returncode in (0, 66), 'exit/transform', 'exits with %d: %s'
            % (p.returncode, p.stdout[-300:]))
    judge(c, p, regions, started, 'transform')
    shutil.rmtree(d)


# -- thread counts -------------------------------------------------------
def many(c, kind):
    r = req.Req(c, kind)
    if r.conv == 'mesh-mixed':
        r.conv = 'particle'
    if c.rng.random() < .5:
        crowd(c, r)
    over = dict(fftw_scheme=['estimate', 'measure'][c.rng.integers(2)])
    ns = [1] + [int(v) for v in c.rng.choice(
        [2, 3, 4, 5, 7, 8, 13, 16], 4, replace=False)]
    c.params(threads=ns, fftw=over['fftw_scheme'], **r.describe())
    key = '%s-%s' % kind
    try:
        threads(1)
        want = r.run(over=over)
        for n in ns[1:] * 2:
            threads(n)
            got = r.run(over=over)
            req.same(c, r, got, want, 'threads/' + key, 1e-10,
                     msg='%d threads' % n)
            for k in want:
                if k.startswith(('nmodes', 'npairs')):
                    c.check(np.array_equal(got[k], want[k]), 'count/' + key,
                            '%s with %d threads' % (k, n))
            c.count('threaded measurements')
    finally:
        threads(2)


# -- repetition ----------------------------------------------------------
def other_call(c):
    """Something else, done between two measurements."""
    from triumvirate import transforms
    from triumvirate.fieldmesh import record_binned_vectors
    kind = ['measure', 'measure', 'fail', 'transform', 'vectors',
            'catalogue'][c.rng.integers(6)]
    if kind in ('measure', 'fail', 'vectors'):
        q = req.Req(c)
        if q.conv == 'mesh-mixed':
            q.conv = 'none'
    threads(int(c.rng.integers(1, 5)))
    if kind == 'measure':
        kind += ' %s %s' % (q.stat, q.cat)
        q.run(over=dict(fftw_scheme=['estimate', 'measure'][
            c.rng.integers(2)]))
    elif kind == 'fail':
        try:
            if c.rng.random() < .5 and q.cat != 'sim':
                q.run(los=[np.ones((2, 3))]*len(q.cols))
            else:
                q.run(over=dict(num_bins=1))
        except (ValueError, RuntimeError, TypeError):
            pass
    elif kind == 'transform':
        x = np.logspace(-3., 1., int(c.rng.integers(8, 200)))
        transforms.SphericalBesselTransform(
            int(c.rng.integers(5)), 0, x, lowring=False,
            threaded=bool(c.rng.integers(2))).transform(1./(1. + x) + 0j)
    elif kind == 'vectors':
        record_binned_vectors(q.binning(), boxsize=list(q.box),
                              ngrid=list(q.n))
    else:
        cols = trv.survey_cat(c.rng, 50, np.full(3, 9.), np.zeros(3))
        trv.make(cols).centre([20.]*3)
    threads(1)
    return kind


def setup(c, kind):
    r = req.Req(c, kind)
    if r.conv == 'mesh-mixed':
        r.conv = 'particle'
    return r


def estimated(r):
    threads(1)
    return r.run(over=dict(fftw_scheme='estimate'))


def repeat(c, kind):
    r = setup(c, kind)
    key = '%s-%s' % kind
    # Described before the calls between, which are drawn from the same
    # generator.
    c.params(**r.describe())
    try:
        want = estimated(r)
        kept = {k: np.array(v) for k, v in want.items() if k != 'header'}
        c.check(req.exact(estimated(r), kept), 'repeat/' + key,
                'repeated measurement differs')
        for _ in range(3):
            what = other_call(c)
            got = estimated(r)
            bad = [k for k in kept if not np.array_equal(
                got[k], kept[k], equal_nan=True)]
            c.check(not bad, 'history/' + key, '%s differ after: %s'
                    % (bad, what))
            c.count('repetitions')
        c.check(req.exact(want, kept), 'kept/' + key,
                'results returned first have changed')
        if c.idx % 3 == 0:
            path = os.path.join(c.scratch, 'fresh.npz')
            env = dict(os.environ, OMP_NUM_THREADS='4', PYTHONHASHSEED=str(
                int(c.rng.integers(1, 1 << 31))))
            p = subprocess.run(
                [PY, '-m', 'checks.C02', c.group, str(c.idx), str(c.seed),
                 c.tier, path], cwd=VERIF, env=env, text=True,
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if not os.path.exists(path):
                raise RuntimeError('fresh process: ' + p.stdout[-2000:])
            with np.load(path) as f:
                bad = [k for k in kept if not np.array_equal(
                    f[k], kept[k], equal_nan=True)]
            c.check(not bad, 'process/' + key,
                    '%s differ in a fresh process' % bad)
            os.remove(path)
            c.count('fresh processes')
    finally:
        threads(2)


def program(c):
    """Repeated program runs write the same bytes (with one thread) and the
    same values (with more)."""
    r = setup(c, None)
    if r.stat.endswith('win') and r.conv == 'mesh-mixed':
        r.conv = 'mesh'
    c.params(**r.describe())
    d = tempfile.mkdtemp(dir=c.scratch)
    write(c, d, r, fftw_scheme='estimate')
    key = '%s-%s' % (r.stat, r.cat)
    runs = []
    for n in (1, 1, int(c.rng.integers(2, 9))):
        res = prog.run(os.environ['VERIF_EXE'], d, OMP_NUM_THREADS=n)
        if not c.check(res.code == 0, 'exit/' + key, 'exits with %d: %s'
                       % (res.code, res.text[-300:])):
            return
        path = os.path.join(d, 'out', prog.expected_name(r))
        with open(path) as fh:
            rows = [ln for ln in fh if not ln.startswith('#')]
        runs.append((rows, prog.read_table(path, r.stat)[0]))
        os.remove(path)
    c.check(runs[0][0] == runs[1][0], 'program/' + key,
            'the same run wrote other measurements')
    s = r.noise(runs[0][1])
    for k, a in runs[0][1].items():
        b = runs[2][1][k]
        tol = 2e-9*np.abs(a) + (1e-10*s if np.iscomplexobj(a) else 0.)
        c.check((np.abs(a - b) <= tol).all(), 'program-threads/' + key,
                '%s depends on threads' % k, got=b, want=a)
    c.count('program runs', 3)
    shutil.rmtree(d)


def one(f, kind):
    return lambda c: f(c, kind)


GROUPS = [Group('race-%s-%s' % k, one(race, k), 3, 36)
          for k in req.KINDS] + [
    Group('race-vectors', race_vectors, 4, 40),
    Group('race-transform', race_transform, 6, 60)] + [
    Group('threads-%s-%s' % k, one(many, k), 5, 80) for k in req.KINDS] + [
    Group('repeat-%s-%s' % k, one(repeat, k), 6, 60) for k in req.KINDS] + [
    Group('program', program, 12, 150)]


def fresh():
    group, idx, seed, tier, path = sys.argv[1:6]
    c = Case(io.StringIO(), 'C02', group, int(idx), int(seed), tier, '.')
    kind = next(k for k in req.KINDS if group == 'repeat-%s-%s' % k)
    got = estimated(setup(c, kind))
    np.savez(path, **{k: v for k, v in got.items() if k != 'header'})


if __name__ == '__main__':
    fresh()

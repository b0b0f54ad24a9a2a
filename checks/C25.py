"""Planning, wisdom and build flavour leave results as they are."""
import glob
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from verifkit import build as B
from verifkit import prog, req
from verifkit.worker import Group

RULE = ('Random requests (statistic, catalogue type, box, mesh, assignment, '
        'interlacing, degrees, form, binning, normalisation, alignment) '
        'measured by the package and the programs under several planner '
        'schemes, with wisdom directories that are absent, empty, filled by '
        'an earlier run, or hold damaged, foreign or unreadable files, in '
        'the builds with and without multithreading and with several '
        'numbers of threads; every result is compared with the one of the '
        'default settings; distinct by all of these.')
ASSUMPTIONS = ['meshes are small, so that planning is short']
WORKERS = 6


def prepare(build):
    return {'VERIF_EXE': build.exe(), 'VERIF_EXESER': build.exe(omp=False),
            'OMP_WAIT_POLICY': 'passive', 'GOMP_SPINCOUNT': '0'}


SCHEMES = ['estimate', 'measure', 'patient']


def request(c, kind=None, **kw):
    kind = kind or req.KINDS[c.idx % len(req.KINDS)]
    r = req.Req(c, kind, **kw)
    if c.rng.random() < .3:     # planners have most choice here
        r.n = c.rng.choice([8, 8, 12, 16, 9], 3)
        if r.npt == 3:
            r.n = np.minimum(r.n, 9)
        r.norm = r.normalisation()
    if r.conv == 'mesh-mixed':
        r.conv = ['mesh', 'particle'][c.rng.integers(2)]
        r.norm = r.normalisation()
    return r


def compare(c, r, a, b, key, what, file=False):
    s = r.noise(a)
    tol = 6e-10 if file else 1e-11
    if not c.check(set(a) == set(b), key, '%s: entries %s and %s' % (
            what, sorted(a), sorted(b))):
        return
    for k in a:
        u, v = np.asarray(a[k]), np.asarray(b[k])
        if not c.check(u.shape == v.shape, key, '%s: %s has shape %s and %s'
                       % (what, k, u.shape, v.shape)):
            continue
        if k.startswith(('nmodes', 'npairs')):
            c.check(np.array_equal(u, v), key, '%s: %s are %s and %s'
                    % (what, k, u, v))
            continue
        lim = tol*np.abs(u) + (1e-10*s if np.iscomplexobj(u) else 0.)
        bad = ~(np.abs(u - v) <= lim)
        c.check(not bad.any(), key, '%s: %s is changed by %.3g (scale %.3g)'
                % (what, k, np.nanmax(np.abs(u - v)) if u.size else 0., s),
                got=v, want=u)
    c.count('results compared')


# -- the package ----------------------------------------------------------
def planner(c):
    """Planner schemes in a history of measurements of one process."""
    r = request(c)
    others = [request(c, req.KINDS[c.rng.integers(len(req.KINDS))])
              for i in range(2)]
    how = [SCHEMES[i] for i in c.rng.permutation(3)]
    c.params(case='planner', schemes=how, **r.describe())
    want = r.run(over=dict(fftw_scheme='estimate'))
    for s in how:
        q = others[c.rng.integers(2)]
        q.run(over=dict(fftw_scheme=SCHEMES[c.rng.integers(3)]))
        compare(c, r, want, r.run(over=dict(fftw_scheme=s)),
                'planner/' + r.stat, s)


def child(jobs, d, threads=2):
    """Measurements one after another in a process of their own."""
    src, dst = os.path.join(d, 'jobs.pkl'), os.path.join(d, 'out.pkl')
    with open(src, 'wb') as fh:
        pickle.dump(jobs, fh)
    p = subprocess.run(
        [sys.executable, '-m', 'checks.C25', src, dst], cwd=d,
        env=dict(os.environ, OMP_NUM_THREADS=str(threads)),
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=150)
    if not os.path.exists(dst):
        return p.returncode, p.stdout.decode(errors='replace')[-3000:]
    with open(dst, 'rb') as fh:
        out = pickle.load(fh)
    os.remove(dst)
    return p.returncode, out


def serve(src, dst):
    with open(src, 'rb') as fh:
        jobs = pickle.load(fh)
    out = []
    for r, over in jobs:
        try:
            out.append(r.run(over=over))
        except Exception as e:
            out.append(repr(e))
    with open(dst, 'wb') as fh:
        pickle.dump(out, fh)


def names(r, omp=True):
    n = 'x'.join(str(int(v)) for v in r.n)
    o = 'omp_' if omp else ''
    return ['fftw_%sci%s_%s.wisdom' % (o, k, n) for k in 'fb']


WISDOM = ['new', 'again', 'damaged', 'truncated', 'empty', 'foreign', 'dir',
          'missing', 'one', 'readonly']


def damage(c, w, how, files):
    """Bring the wisdom directory into a state."""
    rng = c.rng
    for f in files:
        p = os.path.join(w, f)
        if how == 'one' and f == files[0]:
            continue
        data = open(p, 'rb').read() if os.path.isfile(p) else b''
        if how == 'damaged':
            data = bytearray(data or b'(fftw-3.3 fftw_wisdom #x0 #x0\n)')
            for i in rng.integers(0, len(data), 20):
                data[i] = rng.integers(256)
        elif how == 'truncated':
            data = data[:len(data)//2]
        elif how == 'empty':
            data = b''
        elif how == 'foreign':
            data = [b'hello\n', bytes(rng.integers(0, 256, 300, 'u1')),
                    b'(' * 1000, b'(fftw-3.3.8 fftw_wisdom #x0 #x0 #x0 #x0\n)'
                    ][rng.integers(4)]
        elif how == 'dir':
            if os.path.isfile(p):
                os.remove(p)
            os.makedirs(p, exist_ok=True)
            continue
        elif how == 'one':
            if os.path.isfile(p):
                os.remove(p)
            continue
        else:
            continue
        if os.path.isdir(p):
            shutil.rmtree(p)
        with open(p, 'wb') as fh:
            fh.write(bytes(data))


def exported(c, r, w, what, omp=True):
    for f in names(r, omp):
        p = os.path.join(w, f)
        text = open(p, errors='replace').read(40) if os.path.isfile(p) \
            else None
        c.check(text is not None and text.startswith('(fftw-'), 'export',
                '%s: wisdom file %s is %r' % (what, f, text))
    c.count('wisdom files exported', 2)


def wisdom(c):
    """Wisdom in the package."""
    d = tempfile.mkdtemp(dir=c.scratch)
    try:
        r = request(c)
        w = os.path.join(d, 'wisdom')
        os.makedirs(w)
        how = WISDOM[c.idx % len(WISDOM)]
        s = SCHEMES[1 + c.rng.integers(2)]
        q = request(c, req.KINDS[c.rng.integers(len(req.KINDS))])
        thr = [int(c.rng.integers(1, 4)) for i in range(2)]
        c.params(case='wisdom', how=how, planner=s, threads=thr,
                 other=[q.stat] + [int(v) for v in q.n], **r.describe())
        want = r.run()
        wantq = q.run()
        over = dict(fftw_scheme=s, use_fftw_wisdom=w)
        key = 'wisdom/' + r.stat
        if how == 'missing':
            over['use_fftw_wisdom'] = os.path.join(d, 'no', 'such')
        elif how == 'readonly':
            over['use_fftw_wisdom'] = '/proc/self'
        else:
            code, out = child([(r, over)], d, thr[0])
            if c.check(code == 0 and isinstance(out[0], dict), 'run',
                       'measurement with new wisdom failed (%s)' % code,
                       text=out):
                compare(c, r, want, out[0], key, 'new wisdom')
                exported(c, r, w, 'after the first measurement')
            damage(c, w, how, names(r))
        jobs = [(r, over), (q, over), (r, over), (r, {})]
        code, out = child(jobs, d, thr[1])
        if not c.check(code == 0 and len(out) == 4, 'run',
                       'measurement with %s wisdom failed (%s)' % (how, code),
                       text=out):
            return
        for (k, _), o, t in zip(jobs, out, 'first other third last'.split()):
            if c.check(isinstance(o, dict), 'run', '%s measurement with %s '
                       'wisdom raised %s' % (t, how, o)):
                compare(c, k, want if k is r else wantq, o, key,
                        '%s, %s wisdom' % (t, how))
        if how == 'one':
            exported(c, r, w, 'after one file was lost')
    finally:
        shutil.rmtree(d, ignore_errors=True)


# -- the programs ---------------------------------------------------------
def programs(c):
    """Both programs, under any planner, wisdom and number of threads."""
    from checks.C16 import program_files, write_files
    d = tempfile.mkdtemp(dir=c.scratch)
    try:
        r = request(c)
        where, cols, files, full = write_files(c, d, r)
        os.makedirs(os.path.join(d, 'out'))
        vec = 'vecs.txt' if c.rng.random() < .4 else None
        base = prog.settings(r, **program_files(r, where, cols, files),
                             save_binned_vectors=vec)
        steps = []
        for i in range(4):
            st = dict(omp=bool(c.rng.integers(2)),
                      scheme=SCHEMES[c.rng.integers(3)],
                      threads=int(c.rng.choice([1, 2, 3, 5])),
                      wisdom=bool(c.rng.integers(2)),
                      env=bool(c.rng.random() < .3))
            if i and st['wisdom']:
                st['harm'] = [None, 'damaged', 'truncated', 'empty',
                              'foreign', 'dir', 'one'][c.rng.integers(7)]
            if st['scheme'] == 'estimate':
                st['wisdom'] = False
            steps.append(st)
        w = 'wis'
        os.makedirs(os.path.join(d, w))
        c.params(case='programs', steps=steps, **r.describe())
        want = wantv = None
        for st in [dict(omp=True, scheme='estimate', threads=2, wisdom=False,
                        env=False)] + steps:
            p, env = dict(base), {}
            if st['env']:
                env['TRV_OVERRIDE_FFTW_SCHEME'] = st['scheme']
                if st['wisdom']:
                    env['TRV_OVERRIDE_USE_FFTW_WISDOM'] = w
            else:
                p['fftw_scheme'] = st['scheme']
                if st['wisdom']:
                    p['use_fftw_wisdom'] = w
            own = names(r, st['omp'])
            new = not any(os.path.exists(os.path.join(d, w, f)) for f in own)
            if st.get('harm') and not new:
                damage(c, os.path.join(d, w), st['harm'], own)
            prog.write_ini(os.path.join(d, 'p.ini'), p)
            res = prog.run(os.environ['VERIF_EXE' if st['omp'] else
                                      'VERIF_EXESER'], d,
                           OMP_NUM_THREADS=st['threads'],
                           OMP_WAIT_POLICY='passive', GOMP_SPINCOUNT=0, **env)
            path = os.path.join(d, 'out', prog.expected_name(r))
            what = 'the program %s' % st
            if not c.check(res.code == 0 and os.path.isfile(path), 'run',
                           '%s ended with %d' % (what, res.code),
                           text=res.text[-2000:]):
                return
            got, _ = prog.read_table(path, r.stat)
            vecs = [open(f).read() for f in glob.glob(
                os.path.join(d, 'out', 'vecs*'))]
            vecs = sorted('\n'.join(vecs).splitlines())
            shutil.rmtree(os.path.join(d, 'out'))
            os.makedirs(os.path.join(d, 'out'))
            c.count('program runs')
            if want is None:
                want, wantv = got, vecs
                continue
            compare(c, r, want, got, 'programs/' + r.stat, what, file=True)
            c.check(vecs == wantv, 'vectors', '%s: recorded vectors differ'
                    % what)
            if st['wisdom'] and new:
                exported(c, r, os.path.join(d, w), what, st['omp'])
    finally:
        shutil.rmtree(d, ignore_errors=True)


# -- transforms -----------------------------------------------------------
def transforms(c):
    """Hankel transforms with and without multithreading."""
    from triumvirate._fftlog import HankelTransform
    from triumvirate.transforms import (DoubleSphericalBesselTransform,
                                        SphericalBesselTransform)
    rng = c.rng
    n = 2*int(rng.integers(4, 150))
    x = np.exp(rng.uniform(-3, 0) + np.arange(n)*rng.uniform(.01, .1))
    kw = dict(lowring=bool(rng.integers(2)), extrap=int(rng.integers(4)),
              extrap_exp=float(rng.uniform(1.1, 3.)))
    which = int(c.idx % 3)
    ell, pw = int(rng.integers(0, 6)), int(rng.integers(-1, 2))
    mu, q = float(rng.uniform(.5, 5)), float(rng.uniform(-.4, .4))
    c.params(case='transforms', n=n, x=x[:2], which=which, ell=ell, power=pw,
             mu=mu, bias=q, **kw)
    f = rng.normal(0, 1, (n, n) if which == 2 else n)
    if which == 1:
        pw = 0
    res = []
    for threaded in (False, True, False):
        if which == 0:
            h = HankelTransform(mu, q, x, 1., threaded=threaded, **kw)
            res.append(h.transform(f + 0j))
        elif which == 1:
            h = SphericalBesselTransform(ell, pw, x, pivot=1.,
                                         threaded=threaded, **kw)
            res.append(h.transform(f + 0j))
        else:
            h = DoubleSphericalBesselTransform(
                (ell, (ell + 1) % 4), (0, 0), x, pivot=1., threaded=threaded,
                **kw)
            res.append(h.transform(f))
    for i in (1, 2):
        for u, v in zip(res[0], res[i]):
            s = np.abs(np.asarray(u)).max()
            c.close(np.asarray(v), np.asarray(u), 'transforms', 1e-9, s,
                    'threaded or not')


GROUPS = [
    Group('planner', planner, 60, 900),
    Group('wisdom', wisdom, 40, 500),
    Group('programs', programs, 80, 900),
    Group('transforms', transforms, 60, 900),
]

if __name__ == '__main__':
    serve(*sys.argv[1:3])

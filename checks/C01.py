"""Memory and undefined-behaviour sanitisers over every part."""
import glob
import os
import pickle
import shutil
import subprocess
import tempfile

import numpy as np

from verifkit import build as B
from verifkit import est, muted, prog, req, trv
from verifkit.worker import Group

RULE = ('The cases of the other checks and hostile ones (unusable positions, '
        'weights, lines of sight, columns, binnings, meshes, samples, '
        'parameter and catalogue files, destinations), run in the package '
        'and programs built with the address and undefined-behaviour '
        'sanitisers and checked containers, under valgrind, and with '
        'differently filled fresh memory; distinct by their parameters.')
ASSUMPTIONS = ['reads of uninitialised memory are looked for by valgrind in '
               'the program, and otherwise by their effect on results when '
               'fresh memory and automatic variables are filled '
               'differently']
BUDGET = {'quick': 300, 'thorough': 780}
WORKERS = 6
CASE_TIMEOUT = 240


def prepare(build):
    env = B.san_env(
        PYTHONPATH=build.pyext(san=True) + ':' + B.VERIF,
        VERIF_EXE=build.exe(san=True), VERIF_EXESER=build.exe(omp=False),
        VERIF_EXEZERO=build.exe(omp=False, fill='zero'),
        VERIF_EXEPATTERN=build.exe(omp=False, fill='pattern'),
        VERIF_PYZERO=build.pyext(fill='zero'),
        VERIF_PYPATTERN=build.pyext(fill='pattern'),
        VERIF_PARAMS_EXE=build.harness('params', san=True),
        VERIF_CAT=build.harness('cat', san=True),
        VERIF_MON=build.harness('monitor', san=True),
        TRV_SBT=build.harness('sbt', san=True),
        TRV_MESH=build.harness('mesh', san=True),
        TRV_MESH_SAN=build.harness('mesh', san=True))
    env['_full'] = True
    return env


# -- monitor of child processes ------------------------------------------
SIGNS = ('Sanitizer', 'runtime error:', "Assertion '", '_GLIBCXX_ASSERT',
         'stack smashing', 'buffer overflow', 'double free', 'free():',
         'malloc():', 'corrupted', 'realloc():', 'munmap_chunk')


class Watch:
    """Sees the end of every process the case starts."""

    def __init__(self, c):
        self.c = c

    def __enter__(self):
        self.dir = tempfile.mkdtemp(dir=self.c.scratch)
        self.real = subprocess.Popen
        watch = self

        class Popen(self.real):
            def __init__(p, args, *a, **kw):
                env = dict(kw.get('env') or os.environ)
                env.pop('LD_PRELOAD', None)
                for k, v in B.SAN_OPTIONS.items():
                    env[k] = v + ':log_path=' + os.path.join(
                        watch.dir, 'report')
                kw['env'] = env
                watch.c.count('processes watched')
                super(Popen, p).__init__(args, *a, **kw)

        subprocess.Popen = Popen
        return self

    def __exit__(self, *exc):
        subprocess.Popen = self.real
        for f in sorted(glob.glob(os.path.join(self.dir, '*'))):
            with open(f, errors='replace') as fh:
                self.c.fail('report:' + self.c.group, 'sanitiser report: '
                            + headline(fh.read()), text=open(
                                f, errors='replace').read()[:6000])
        shutil.rmtree(self.dir, ignore_errors=True)


def headline(text):
    for ln in text.splitlines():
        if any(s in ln for s in SIGNS):
            return ln.strip()[:300]
    return text[:300]


def ended(c, code, text, what):
    """A process must end by itself: in success, an error, or an exception
    it reports."""
    c.check(code not in (99, -11, -7, -8, -4) and not any(
        s in text for s in SIGNS) and (code != -6 or 'what()' in text),
        'end:' + c.group, '%s ended with %s: %s' % (
            what, code, headline(text)), text=text[-3000:])


def reuse(prop, group):
    def case(c):
        with Watch(c):
            e = muted.run(c, prop, group)
        # An exception of the workload's own making is not judged here: the
        # monitor is the sanitiser (and the fate of the process).
        c.check(e is None or isinstance(e, Exception), 'end:' + c.group,
                'ended in %r' % e)
    return case


# -- hostile cases in the package ----------------------------------------
BADF = [np.nan, np.inf, -np.inf, 1e300, -1e300, 1e18, -1e18, 3e9, -3e9, 0.,
        -0., 5e-324, 1e-300]


def attempt(c, func, what=''):
    c.n += 1
    try:
        r = func()
    except Exception as e:
        c.count('calls refused (%s)' % type(e).__name__)
        return None
    c.count('calls accepted')
    return r


def positions(c):
    """Coordinates, weights and densities no survey has."""
    rng = c.rng
    r = req.Req(c, req.KINDS[c.idx % len(req.KINDS)], hi=7)
    marks = []
    for i, q in enumerate(r.cols):
        for j in range(int(rng.integers(1, 4))):
            k = list(q)[rng.integers(len(q))]
            n = len(q[k])
            if rng.random() < .2:     # exactly at a face of the box
                v = r.box[rng.integers(3)]*rng.choice([0., .5, 1., -1.])
            else:
                v = BADF[rng.integers(len(BADF))]
            at = slice(None) if rng.random() < .15 \
                else rng.integers(0, n, int(rng.integers(1, 4)))
            q[k] = np.array(q[k], float)
            q[k][at] = v
            marks.append((i, k, float(v)))
    c.params(case='positions', marks=marks, **r.describe())
    attempt(c, lambda: r.run())


def lines(c):
    rng = c.rng
    r = req.Req(c, [k for k in req.KINDS if k[1] != 'sim'][c.idx % 6], hi=7)
    los, how = [], []
    for q in r.cols:
        n = len(q['x'])
        v = trv.unit(rng.normal(0, 1, (n, 3)))
        h = ['short', 'long', 'empty', 'nan', 'zero', 'huge', 'int', 'f32',
             'order', 'flat', 'two', 'four', 'object', 'list', 'strided',
             'complex', 'none', 'text'][rng.integers(18)]
        v = {'short': lambda: v[:int(rng.integers(0, n))],
             'long': lambda: np.vstack([v, v]), 'empty': lambda: v[:0],
             'nan': lambda: v*np.nan, 'zero': lambda: v*0.,
             'huge': lambda: v*1e300, 'int': lambda: v.round().astype(int),
             'f32': lambda: v.astype('f4'),
             'order': lambda: np.asfortranarray(v),
             'flat': lambda: v.ravel(), 'two': lambda: v[:, :2],
             'four': lambda: np.hstack([v, v[:, :1]]),
             'object': lambda: v.astype(object), 'list': lambda: v.tolist(),
             'strided': lambda: np.repeat(v, 2, axis=0)[::2],
             'complex': lambda: v + 0j, 'none': lambda: None,
             'text': lambda: v.astype(str)}[h]()
        los.append(v)
        how.append(h)
    c.params(case='lines', how=how, **r.describe())
    attempt(c, lambda: r.run(los=los))


def columns(c):
    """Catalogues of odd sizes, types and layouts."""
    from triumvirate.catalogue import ParticleCatalogue
    rng = c.rng
    r = req.Req(c, req.KINDS[c.idx % len(req.KINDS)], hi=7)
    how = []
    cats = []

    def change(v, h):
        n = len(v)
        return {'short': lambda: v[:n//2], 'long': lambda: np.append(v, v),
                'none': lambda: v[:0], 'one': lambda: v[:1],
                'scalar': lambda: float(v[0]), 'int': lambda: v.astype(int),
                'f4': lambda: v.astype('f4'), 'big': lambda: v.astype('>f8'),
                'object': lambda: v.astype(object),
                'text': lambda: v.astype(str),
                'complex': lambda: v + 1j, 'bool': lambda: v > 0,
                'two': lambda: np.stack([v, v]), 'list': lambda: v.tolist(),
                'strided': lambda: np.repeat(v, 3)[::3],
                'back': lambda: v[::-1], 'wide': lambda: v[:, None],
                'masked': lambda: np.ma.masked_less(v, v.mean())}[h]()

    hs = ['short', 'long', 'none', 'one', 'scalar', 'int', 'f4', 'big',
          'object', 'text', 'complex', 'bool', 'two', 'list', 'strided',
          'back', 'wide', 'masked']
    every = rng.random() < .5
    h = hs[rng.integers(len(hs))]
    for q in r.cols:
        q = dict(q)
        for k in q:
            if every or rng.random() < .3:
                how.append((k, h))
                q[k] = change(np.asarray(q[k]), h)
            if not every:
                h = hs[rng.integers(len(hs))]
        cats.append(attempt(c, lambda: ParticleCatalogue(**q)))
    c.params(case='columns', how=how, **r.describe())
    if any(k is None for k in cats):
        return
    if rng.random() < .3:   # replaced behind the back of the catalogue
        k = cats[0]
        attempt(c, lambda: k.__setitem__('ws', [[1.], np.zeros(
            len(k)), np.ones(3), 'a'][rng.integers(4)]))
    attempt(c, lambda: r.run(cats=cats))


def bins(c):
    """Binnings of another space, range, order or mesh."""
    from triumvirate.dataobjs import Binning
    from triumvirate.fieldmesh import record_binned_vectors
    rng = c.rng
    r = req.Req(c, req.KINDS[c.idx % len(req.KINDS)], hi=7)
    sch = ['lin', 'log', 'linpad', 'logpad', 'custom'][rng.integers(5)]
    space = ['fourier', 'config'][rng.integers(2)]
    v = [-1., 0., 1e-12, .05, .3, 10., 300., 1e9, 1e300, np.nan, np.inf,
         -np.inf]
    lo, hi = v[rng.integers(len(v))], v[rng.integers(len(v))]
    nb = int(rng.choice([-1, 0, 1, 2, 3, 6, 7, 8, 12, 40]))
    c.params(case='bins', given=sch, of=space, lo=lo, hi=hi, num=nb,
             **r.describe())

    def make():
        if sch == 'custom':
            b = Binning(space, 'custom')
            e = np.array([v[i] for i in rng.integers(0, len(v), abs(nb))])
            if rng.random() < .6:
                e = np.sort(e)
            b.set_bins(e) if hasattr(b, 'set_bins') and rng.random() < .1 \
                else b.set_custom_bins(e)
            return b
        return Binning(space, sch, lo, hi, nb)
    b = attempt(c, make)
    if b is None:
        b = r.binning()
        u = rng.integers(3)
        if u == 0:
            attempt(c, lambda: b.set_bins(lo, hi, nb))
        elif u == 1:
            attempt(c, lambda: b.set_grid_based_bins(
                float(v[rng.integers(len(v))]),
                int(rng.choice([-4, 0, 1, 3, 8, 50]))))
        else:
            attempt(c, lambda: b.set_custom_bins(
                np.array([v[i] for i in rng.integers(0, len(v), 4)])))
    if r.npt == 3:
        r.idx = int(rng.choice([-50, -3, -1, 0, 1, 2, 3, 7, 50, 2**31 - 1,
                                -2**31]))
    attempt(c, lambda: r.run(binning=b))
    if rng.random() < .5:
        attempt(c, lambda: record_binned_vectors(b, paramset=r.paramset()))


def ends(c):
    """A mode or separation exactly at, or within an ulp of, the end of the
    sampled range."""
    rng = c.rng
    r = req.Req(c, req.KINDS[c.idx % len(req.KINDS)], hi=8)
    old = np.array(r.box, float)
    ax = int(rng.integers(3))
    i = int(rng.integers(1, max(r.n[ax]//2, 1) + 1))
    # Three-point spectra sample separations too, for their shot noise.
    four = r.stat == 'powspec' or (r.stat == 'bispec' and rng.random() < .2)
    L = 2*np.pi*i/10. if four else 1e5*float(r.n[ax])/i
    for _ in range(int(rng.integers(0, 3))):
        L = np.nextafter(L, [0., np.inf][rng.integers(2)])
    if rng.random() < .7:   # look for a size at which the quotient is exact
        for _ in range(40):
            q = i*(2*np.pi/L)/1e-5/10 if four else i*(L/r.n[ax])/.1/10
            if q == 1e5:
                break
            L = np.nextafter(L, np.inf if (q > 1e5) == four else 0.)
    box = old*(L/old[ax])
    f = box/old
    for q in r.cols:
        for j, k in enumerate('xyz'):
            q[k] = np.asarray(q[k])*f[j]
    r.pos = [p*f for p in r.pos]
    r.box = box
    k = 2*np.pi/box if r.fourier else box/r.n
    top = rng.choice([.5, 1., 1.2])*(10. if r.stat == 'powspec' else
                                     1e5 if not r.fourier else k.max()*3)
    r.bs, r.edges = 'lin', np.linspace(0. if rng.random() < .5 else k.min(),
                                       max(top, 2*k.min()), 4)
    r.idx = int(rng.integers(3))
    c.params(case='ends', axis=ax, mode=i, **r.describe())
    attempt(c, r.run)


def meshes(c):
    """Meshes, boxes, degrees, alignments at and beyond the limits."""
    rng = c.rng
    kind = req.KINDS[c.idx % len(req.KINDS)]
    r = req.Req(c, kind, hi=7)
    u = rng.integers(6)
    over = {}
    if u == 5:      # more than any memory
        r.n = np.array([[60000, 60000, 60000], [2**31 - 1]*3,
                        [2**31 - 1, 2**31 - 1, 2], [2**20, 2**20, 2**23],
                        [2**31 - 1, 2**16, 2**16]][rng.integers(5)])
    elif u == 0:
        r.n = rng.choice([1, 1, 2, 2, 3, 4, 5], 3)
    elif u == 1:
        r.box = np.array([[1e-6, 1., 1e3, 1e9, 1e150, 1e200][i]
                          for i in rng.integers(0, 6, 3)])
    elif u == 2:
        d = rng.integers(-2, 12, 3)
        r.deg = tuple(int(x) for x in d)
    elif u == 3 and r.align:
        r.align = ('pad', ['box', 'grid'][rng.integers(2)],
                   float(rng.choice([0., 1e-9, .9, 1., 5., -1., -.3, 1e9,
                                     1e300])))
    else:
        r.wa = tuple(int(x) for x in rng.integers(-3, 6, 2))
    c.params(case='meshes', which=int(u), **r.describe())
    attempt(c, lambda: r.run(over=over))


def vectors(c):
    """Recording of binned vectors, to usable and unusable places."""
    from triumvirate.fieldmesh import record_binned_vectors
    rng = c.rng
    r = req.Req(c, hi=8)
    over = dict(form='full', statistic_type=r.stat)
    d = tempfile.mkdtemp(dir=c.scratch)
    where = ['x.txt', 'x', '', 'no/such/x', 'dir', 'a'*300, 'b'*1500,
             'é/x'][rng.integers(8)]
    os.makedirs(os.path.join(d, 'dir'))
    save = [False, '.txt', '.npz', True, 'x'][rng.integers(5)]
    c.params(case='vectors', where=where, save=str(save), **r.describe())

    def go():
        ps = r.paramset()
        ps.update(directories={'measurements': d, 'catalogues': d},
                  save_binned_vectors=where or None)
        return record_binned_vectors(
            r.binning() if rng.random() < .7 else None, paramset=ps,
            save=save)
    attempt(c, go)

    def run():
        ps = r.paramset()
        ps.update(directories={'measurements': d, 'catalogues': d},
                  save_binned_vectors=where or None)
        return r.run(paramset=ps, save=save)
    old = os.getcwd()
    os.chdir(d)
    try:
        attempt(c, run)
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def samples(c):
    """Transforms of odd samples and sample points."""
    from triumvirate import transforms as T
    from triumvirate._fftlog import HankelTransform
    from triumvirate.transforms import SphericalBesselTransform
    rng = c.rng
    n = int(rng.choice([0, 1, 2, 3, 4, 5, 8, 17, 64]))
    a = rng.uniform(-3, 2)
    x = np.exp(a + np.arange(n)*rng.uniform(.001, 2.))
    f = rng.normal(0, 1, n)
    u = int(rng.integers(9))
    if n and u == 0:
        x[rng.integers(n)] = BADF[rng.integers(len(BADF))]
    if n and u == 1:
        f[rng.integers(n)] = BADF[rng.integers(len(BADF))]
    if u == 2:
        x = x[::-1].copy()
    if u == 3:
        f = f[:n//2]
    if u == 4:
        f = np.append(f, f)
    if u == 5:
        x = np.arange(n) - 1.
    if u == 6:
        f = f[None]
    if u == 7:
        x = x.astype('f4')
    mu = float(rng.choice([0., .5, 2.5, -.5, -1., -3., 40., 400., np.nan]))
    q = float(rng.choice([0., 0., -1., 1., 3.5, -3.5, 60., np.inf]))
    kr = float(rng.choice([1., 0., -1., 1e-300, 1e300, np.nan]))
    ext = int(rng.choice([0, 1, 2, 3, 4, 5, -1]))
    fac = float(rng.choice([2., 1., 1.1, .5, 0., -1., 7.3, 40.]))
    low = bool(rng.integers(2))
    thr = bool(rng.integers(2))
    ell = int(rng.choice([0, 1, 2, 5, 30, -1, -2]))
    which = int(rng.integers(5))
    c.params(case='samples', n=n, how=u, mu=mu, q=q, kr=kr, ext=ext, fac=fac,
             low=low, thr=thr, ell=ell, which=which, x=x[:3], f=f[:3])
    if which == 0:
        h = attempt(c, lambda: HankelTransform(
            mu, q, x, kr, lowring=low, extrap=ext, extrap_exp=fac,
            threaded=thr))
        for i in range(2):
            attempt(c, lambda: h.transform(f))
    elif which == 1:
        layer = ['outer', 'native'][rng.integers(2)]
        h = attempt(c, lambda: SphericalBesselTransform(
            ell, int(rng.integers(-1, 2)), x, pivot=kr, lowring=low,
            extrap=ext, extrap_exp=fac, extrap_layer=layer, threaded=thr))
        if h is not None:
            attempt(c, lambda: h.transform(f))
            attempt(c, lambda: h.transform_cosmo_multipoles(
                int(rng.choice([1, -1])), f))
    elif which == 2:
        from triumvirate.transforms import DoubleSphericalBesselTransform
        g = np.resize(f, (len(x), len(x))) if len(f) else f
        if u == 3:
            g = g[:-1] if g.ndim == 2 else g
        h = attempt(c, lambda: DoubleSphericalBesselTransform(
            (ell, 2), (0, 0), x, pivot=kr, lowring=low, extrap=ext,
            extrap_exp=fac))
        if h is not None:
            attempt(c, lambda: h.transform(g))
    elif which == 3:
        g = np.resize(f, (len(x), len(x))) if len(f) else f
        attempt(c, lambda: T.resample_lglin(x, f))
        attempt(c, lambda: T.resample_lin(x, f))
        attempt(c, lambda: T.resample_lglin(x, g))
    else:
        attempt(c, lambda: HankelTransform(
            mu, q, [x, x.tolist(), x.astype(object), x.astype(str),
                    None, 'x', np.stack([x, x])][rng.integers(7)], kr))


def settings(c):
    """Parameter sets built, changed and used while invalid."""
    from triumvirate.parameters import ParameterSet
    rng = c.rng
    r = req.Req(c, hi=7)
    ps = r.paramset()
    keys = ['boxsize', 'ngrid', 'degrees', 'range', 'num_bins', 'idx_bin',
            'form', 'binning', 'assignment', 'interlace', 'alignment',
            'padscale', 'padfactor', 'expand', 'cutoff_nyq', 'tags',
            'directories', 'wa_orders', 'norm_convention', 'fftw_scheme',
            'use_fftw_wisdom', 'save_binned_vectors', 'verbose',
            'statistic_type', 'catalogue_type', 'progbar', 'volume',
            'nmesh', 'npoint', 'space', 'shape']
    vals = [None, '', 'x', 0, 1, -1, 2**31, 2**40, -2**40, 1.5, 1e300,
            np.nan, np.inf, True, [], [1, 2, 3], (0., 1.), {}, {'x': 1},
            {'x': 5, 'y': 5, 'z': 5}, {'ell1': 0, 'ell2': 0, 'ELL': 0},
            'a'*2000, b'x', object(), np.zeros(3), 'é', '\x00', 4.]
    how = []
    for i in range(int(rng.integers(1, 4))):
        k, v = keys[rng.integers(len(keys))], vals[rng.integers(len(vals))]
        how.append((k, repr(v)[:20]))
        attempt(c, lambda: ps.update({k: v}))
        if rng.random() < .3:
            attempt(c, lambda: ps.__setitem__(k, v))
    c.params(case='settings', how=how, **r.describe())
    attempt(c, lambda: ps.print())
    attempt(c, lambda: ps.save(os.path.join(c.scratch, 'p.yml')))
    n = ps['ngrid']
    try:
        big = 1e5 < float(np.prod([float(v) for v in n.values()])) < 1e14
    except Exception:
        big = False
    if not big and not (isinstance(ps['statistic_type'], str)
                        and ps['statistic_type'] == ''):
        old = os.getcwd()
        os.chdir(c.scratch)
        try:
            attempt(c, lambda: r.run(paramset=ps))
        finally:
            os.chdir(old)
    attempt(c, lambda: ParameterSet(param_filepath=os.path.join(
        c.scratch, 'p.yml')))


def measure(c):
    """Ordinary measurements of every kind."""
    r = req.Req(c, req.KINDS[c.idx % len(req.KINDS)])
    if r.cat != 'sim' and c.rng.random() < .3:
        r.los = [trv.unit(c.rng.normal(0, 1, (len(q['x']), 3)))
                 for q in r.cols]
    c.params(case='measure', **r.describe())
    c.check(attempt(c, lambda: r.run()) is not None, 'measure',
            'an ordinary measurement was refused')


# -- the program ----------------------------------------------------------
def prog_setup(c, d, hi=7, kind=None):
    from checks.C16 import program_files, write_files
    r = req.Req(c, kind or req.KINDS[c.idx % len(req.KINDS)], hi=hi)
    if r.conv == 'mesh-mixed':
        r.conv = 'mesh'
    where, names, files = write_files(c, d, r)[:3]
    os.makedirs(os.path.join(d, 'out'), exist_ok=True)
    return r, program_files(r, where, names, files), [
        os.path.join(d, where, f) for s in files for f in s.split('::')]


def run_plain(c, d, args=('p.ini',), exe=None, **env):
    p = subprocess.run([exe or os.environ['VERIF_EXE'], *args], cwd=d,
                       env=B.clean_env(**env), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=200,
                       stdin=subprocess.DEVNULL)
    text = p.stdout.decode(errors='replace')
    ended(c, p.returncode, text, 'the program')
    c.count('program runs ending with %d' % p.returncode)
    return p.returncode, text


def program_garbage(c):
    """Catalogue and parameter files of any content, any destination."""
    rng = c.rng
    d = tempfile.mkdtemp(dir=c.scratch)
    try:
        r, files, full = prog_setup(c, d)
        p = prog.settings(r, **files)
        how = ['text', 'bytes', 'short', 'empty', 'nan', 'columns', 'colnames',
               'dir', 'missing', 'long', 'keys', 'ini', 'dest', 'args',
               'nonewline', 'edge', 'huge', 'vectors'][c.idx % 18]
        args = ['p.ini']
        f = full[rng.integers(len(full))]
        if how in ('text', 'bytes', 'short', 'empty', 'nan', 'nonewline',
                   'edge', 'huge'):
            rows = open(f).read().splitlines()
            k = int(rng.integers(len(rows)))
            if how == 'text':
                rows[k] = ['a b c d e f', '1 2', '1e999 1 1 1 1 1', '--', '#',
                           '1,2,3,4,5,6', '0x1p3 1 1 1 1 1 1',
                           'x'*100000][rng.integers(8)]
            if how == 'short':
                rows = rows[:int(rng.integers(0, 3))]
            if how == 'empty':
                rows = [['', '#', '# x', '\n\n', ' '][rng.integers(5)]]
            if how in ('nan', 'edge', 'huge'):
                w = rows[k].split() or ['1']*6
                v = {'nan': ['nan', 'inf', '-inf'],
                     'edge': ['0', '%r' % r.box[0], '-1e-320', '%r' %
                              np.nextafter(r.box[0], 0)],
                     'huge': ['1e300', '-1e300', '3e9', '-1e18']}[how]
                w[rng.integers(len(w))] = v[rng.integers(len(v))]
                rows[k] = ' '.join(w)
            with open(f, 'wb') as fh:
                s = '\n'.join(rows).encode()
                if how == 'bytes':
                    s = rng.integers(0, 256, int(rng.integers(
                        1, 5000)), dtype='u1').tobytes()
                fh.write(s + (b'' if how == 'nonewline' else b'\n'))
        if how == 'columns':
            p['catalogue_columns'] = ','.join(rng.choice(
                ['x', 'y', 'z', 'nz', 'ws', 'wc', 'x', 'q', ''],
                int(rng.integers(0, 12))))
        if how == 'colnames':
            p['catalogue_columns'] = ['x'*3000, ','*2000, 'x,y,z'*300,
                                      'x;y;z', ','][rng.integers(5)]
        if how == 'dir':
            os.remove(f)
            os.makedirs(f)
        if how == 'missing':
            os.remove(f)
        if how == 'long':
            k = ['output_tag', 'measurement_dir', 'catalogue_dir',
                 'data_catalogue_file', 'rand_catalogue_file', 'form',
                 'assignment', 'ngrid_x'][rng.integers(8)]
            p[k] = 'a'*int(rng.choice([200, 1000, 1024, 1100, 5000, 20000]))
        if how == 'keys':
            k = list(p)[rng.integers(len(p))]
            p[k] = ['', '=', '1e400', '-5', 'nan', '99999999999999999999',
                    '0', '2147483648', '%s%n%d', 'true', '#'][
                        rng.integers(11)]
            if k.startswith('ngrid') and p[k] in ('2147483648',):
                p[k] = '-2147483648'
        if how == 'vectors':
            p['save_binned_vectors'] = ['true', 'no/x', 'x'*2000, 'out',
                                        'v.txt'][rng.integers(5)]
        prog.write_ini(os.path.join(d, 'p.ini'), p)
        if how == 'ini':
            u = rng.integers(4)
            with open(os.path.join(d, 'p.ini'), 'ab' if u < 2 else 'wb') as \
                    fh:
                fh.write([b'=\n = \nx=\n=x\n', b'z'*50000 + b' = 1\n',
                          rng.integers(0, 256, 3000, dtype='u1').tobytes(),
                          b''][u])
        if how == 'dest':
            name = prog.expected_name(r)
            u = rng.integers(3)
            if u == 0:
                os.makedirs(os.path.join(d, 'out', name))
            elif u == 1:
                shutil.rmtree(os.path.join(d, 'out'))
                open(os.path.join(d, 'out'), 'w').close()
            else:
                shutil.rmtree(os.path.join(d, 'out'))
                os.symlink('/nonexistent/x', os.path.join(d, 'out'))
        if how == 'args':
            args = [[], ['-h'], ['-V'], ['--help'], ['--version'],
                    ['nofile.ini'], ['.'], [''], ['p.ini', 'p.ini'],
                    ['a'*4000], ['-x']][rng.integers(11)]
        c.params(case='program_garbage', how=how, args=[a[:20] for a in args],
                 file=os.path.basename(f), **r.describe())
        with Watch(c):
            run_plain(c, d, args)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def program_ok(c):
    d = tempfile.mkdtemp(dir=c.scratch)
    try:
        r, files, full = prog_setup(c, d)
        extra = {}
        if c.rng.random() < .4:
            extra['save_binned_vectors'] = 'vecs.txt'
        prog.write_ini(os.path.join(d, 'p.ini'), prog.settings(
            r, **files, **extra))
        c.params(case='program', **r.describe(), **extra)
        with Watch(c):
            run_plain(c, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def memcheck(c):
    """Valgrind on the program without multithreading."""
    d = tempfile.mkdtemp(dir=c.scratch)
    try:
        r, files, full = prog_setup(c, d, hi=6)
        prog.write_ini(os.path.join(d, 'p.ini'), prog.settings(r, **files))
        c.params(case='memcheck', **r.describe())
        log = os.path.join(d, 'vg.log')
        p = subprocess.run(
            ['valgrind', '-q', '--error-exitcode=98', '--log-file=' + log,
             '--track-origins=yes', os.environ['VERIF_EXESER'], 'p.ini'],
            cwd=d, env=B.clean_env(), stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT, timeout=230)
        text = open(log, errors='replace').read() if os.path.exists(log) \
            else ''
        if p.returncode != 98 and 'unhandled instruction' in text:
            c.count('valgrind could not run')
            c.n += 1
            return
        c.count('runs under valgrind')
        c.check(p.returncode != 98, 'memcheck', 'valgrind: '
                + '; '.join(text.splitlines()[:3])[:300], text=text[:5000])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def perturb(c):
    """Results do not depend on what fresh memory holds."""
    d = tempfile.mkdtemp(dir=c.scratch)
    try:
        r, files, full = prog_setup(c, d)
        prog.write_ini(os.path.join(d, 'p.ini'), prog.settings(
            r, **files, save_binned_vectors='vecs.txt'))
        c.params(case='perturb', **r.describe())
        seen = []
        for fill, exe in (('1', 'SER'), ('170', 'ZERO'), ('255', 'PATTERN')):
            code, text = run_plain(
                c, d, exe=os.environ['VERIF_EXE' + exe], OMP_NUM_THREADS=1,
                MALLOC_PERTURB_=fill)
            out = {}
            for root, _, fs in os.walk(os.path.join(d, 'out')):
                for f in fs:
                    out[f] = open(os.path.join(root, f), 'rb').read()
                    os.remove(os.path.join(root, f))
            seen.append((code, out))
        c.check(seen[0][0] == 0 and seen[0][1], 'perturb', 'the program '
                'ended with %s and %d files' % (seen[0][0], len(seen[0][1])))
        c.check(seen[0] == seen[1] == seen[2], 'perturb', 'results depend '
                'on the content of fresh memory',
                files=sorted(k for k in seen[0][1] if any(
                    s[1].get(k) != seen[0][1][k] for s in seen)))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def perturb_package(c):
    """Likewise for the package: one process per fill, many requests."""
    d = tempfile.mkdtemp(dir=c.scratch)
    seed, n = int(c.rng.integers(2**31)), 16
    c.params(case='perturb_package', requests_seed=seed, requests=n)
    try:
        seen = []
        for exe, fill in (('ZERO', '1'), ('PATTERN', '170')):
            p = subprocess.run(
                ['/opt/venv/bin/python', '-W', 'ignore', '-m',
                 'verifkit.filled', str(seed), str(n), d + '/' + exe],
                cwd=d, timeout=230, stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT, text=True, errors='replace',
                env=B.clean_env(
                    OMP_NUM_THREADS=1, MALLOC_PERTURB_=fill,
                    PYTHONPATH=os.environ['VERIF_PY' + exe] + ':' + B.VERIF))
            ended(c, p.returncode, p.stdout, 'requests')
            if not c.check(os.path.exists(d + '/' + exe), 'perturb',
                           'the requests ended with %s: %s' % (
                               p.returncode, p.stdout[-300:])):
                return
            with open(d + '/' + exe, 'rb') as f:
                seen.append(pickle.load(f))
        for (what, a), (_, b) in zip(*seen):
            c.count('requests raising' if 'raised' in a else
                    'requests compared under two fills of memory')
            bad = [k for k in set(a) | set(b) if k not in a or k not in b
                   or not np.array_equal(a[k], b[k], equal_nan=a[
                       k].dtype.kind in 'fc')]
            c.check(not bad, 'perturb', 'results depend on the content of '
                    'fresh memory: %s' % sorted(bad), request=what)
    finally:
        shutil.rmtree(d, ignore_errors=True)


REUSED = [
    ('C03', 'boundaries', 40), ('C03', 'random', 20),
    ('C11', 'recorded', 20), ('C11', 'agree', 10), ('C11', 'unusable', 30),
    ('C13', 'program', 40), ('C13', 'program_invalid', 40),
    ('C13', 'program_malformed', 40), ('C13', 'valid', 60),
    ('C13', 'invalid', 60), ('C13', 'change', 40), ('C13', 'sources', 10),
    ('C15', 'arrays', 15), ('C15', 'files', 15), ('C15', 'cpp', 25),
    ('C15', 'cpp-reject', 25), ('C17', 'default', 6),
    ('C18', 'makers', 15), ('C19', 'hankel', 40), ('C19', 'inverse', 20),
    ('C19', 'sbt', 40), ('C19', 'double', 8), ('C19', 'options', 5),
    ('C19', 'cpp', 40), ('C20', '1d', 15), ('C20', '2d', 15),
    ('C21', 'twopcf', 8), ('C21', 'threepcf', 5), ('C21', 'bispec', 5),
    ('C23', 'unfit', 12), ('C23', 'unfit-program', 16),
    ('C24', 'strings', 15), ('C24', 'native', 15), ('C24', 'bar', 15),
]


def reused():
    out = []
    for prop, group, n in REUSED:
        gs = muted.groups(prop)
        for g in ([group] if group else gs):
            out.append(Group('%s-%s' % (prop, g), reuse(prop, g), n, 12*n))
    return out


GROUPS = [
    Group('measure', measure, 80, 1500),
    Group('positions', positions, 60, 900), Group('lines', lines, 36, 500),
    Group('columns', columns, 50, 800), Group('bins', bins, 80, 1200),
    Group('ends', ends, 60, 700),
    Group('meshes', meshes, 60, 900), Group('vectors', vectors, 40, 400),
    Group('samples', samples, 150, 3000),
    Group('settings', settings, 80, 1200),
    Group('program', program_ok, 30, 400),
    Group('program_garbage', program_garbage, 126, 1800),
    Group('memcheck', memcheck, 10, 60), Group('perturb', perturb, 20, 200),
    Group('perturb_package', perturb_package, 12, 150),
] + reused()

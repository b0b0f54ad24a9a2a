"""Catalogues: columns, totals, extents and the moves of particles."""
import math
import os
import re
import subprocess
import tempfile
import warnings

import numpy as np

from verifkit.build import san_env
from verifkit.worker import Group
from verifkit import prog, req, trv

RULE = ('Random catalogues (sizes, offsets, spreads, data types, scalar and '
        'missing columns) made from arrays and from files of several formats '
        'and layouts, taken through random sequences of operations on one '
        'catalogue or a pair, each step compared with a model of the '
        'particles; the same for the C++ catalogue class (sanitised); '
        'distinct by catalogue, format and sequence.')
ASSUMPTIONS = ['catalogue files hold numbers of finite value']
COLS = ('x', 'y', 'z', 'nz', 'ws', 'wc')


def prepare(build):
    return {'VERIF_CAT': build.harness('cat', san=True)}


def rand_cols(rng, num=None):
    num = num or int(rng.integers(1, 200))
    s = 10.**rng.uniform(0, 3.5)
    p = trv.clustered(rng, num, s*rng.uniform(.3, 1., 3)) \
        + s*rng.uniform(-3, 3, 3)*rng.integers(0, 2)
    q = dict(zip('xyz', p.T.copy()))
    q.update(nz=rng.uniform(0, 1e-3, num), ws=rng.uniform(0, 2, num),
             wc=rng.uniform(0, 2, num))
    return q


def exact(a, dtype):
    """Values of `a` as that type holds them, and in double precision."""
    b = np.asarray(a).astype(dtype)
    return b, b.astype(np.float64)


class Model:
    """What a catalogue should hold."""

    def __init__(self, q):
        self.q = {k: np.array(v, np.float64) for k, v in q.items()}
        self.total()

    def total(self):
        q = self.q
        self.w = math.fsum(q['ws']*q['wc'])
        self.ws = math.fsum(q['ws'])

    @property
    def p(self):
        return np.stack([self.q[a] for a in 'xyz'], -1)

    def move(self, p):
        for i, a in enumerate('xyz'):
            self.q[a] = np.array(p[:, i])

    def judge(self, c, cat, key, box=None, scale=1.):
        """The catalogue holds this; positions on a circle if `box`."""
        n = len(self.q['x'])
        c.check(len(cat) == n and cat.ntotal == n, key, 'holds %d (%s), not '
                '%d particles' % (len(cat), cat.ntotal, n))
        got = {k: np.asarray(cat[k]) for k in COLS}
        for k in COLS[3:]:
            c.check(np.array_equal(got[k], self.q[k]), key,
                    'column %s changed' % k, got=got[k], want=self.q[k])
        for i, a in enumerate('xyz'):
            d = got[a] - self.q[a]
            if box is not None:
                d -= box[i]*np.rint(d/box[i])
            s = max(scale, np.abs(self.q[a]).max())
            c.check(np.abs(d).max() <= 1e-13*s, key, 'coordinate %s off by '
                    '%.3g' % (a, np.abs(d).max()), got=got[a],
                    want=self.q[a])
            # Bounds are those of the particles held.
            c.check(cat.bounds[a] == (got[a].min(), got[a].max()), key,
                    'bounds %s of %s, not (%r, %r)' % (
                        cat.bounds[a], a, got[a].min(), got[a].max()))
            c.check(cat.spans[a] == got[a].max() - got[a].min(), key,
                    'span of %s' % a)
            self.q[a] = got[a].astype(np.float64)
        c.check(abs(cat.wtotal - self.w) <= 1e-12*self.w
                and abs(cat.wstotal - self.ws) <= 1e-12*self.ws, key,
                'totals %r, %r instead of %r, %r' % (
                    cat.wtotal, cat.wstotal, self.w, self.ws))


# -- making catalogues -----------------------------------------------------
DTYPES = ['f8', 'f8', 'f4', '>f8', '>f4', 'i8', 'i4', 'list', 'strided']


def column(rng, a, dtypes=DTYPES):
    """A column given in some form, and what it holds."""
    t = dtypes[rng.integers(len(dtypes))]
    if t == 'list':
        return list(a), np.array(a), t
    if t == 'strided':
        return np.repeat(a, 3)[1::3], np.array(a), t
    b, v = exact(np.rint(a*3) if t[0] == 'i' else a, t)
    return b, v, t


def arrays(c):
    from triumvirate.catalogue import (DefaultValueWarning,
                                       ParticleCatalogue)
    rng = c.rng
    q = rand_cols(rng)
    kw, want, types = {}, {}, {}
    num = len(q['x'])
    for k in COLS:
        u = rng.random()
        if k not in 'xyz' and u < .3:
            want[k] = np.full(num, 0. if k == 'nz' else 1.)
            types[k] = 'none'
        elif k not in 'xyz' and u < .5:
            kw[k] = [1, 2., .5, True, np.float32(.3)][rng.integers(5)]
            want[k] = np.full(num, float(kw[k]))
            types[k] = 'scalar'
        else:
            kw[k], want[k], types[k] = column(rng, q[k])
    c.params(num=num, types=types)
    keep = {k: (list(v) if isinstance(v, list) else np.copy(v))
            for k, v in kw.items()}
    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter('always')
        cat = ParticleCatalogue(**kw)
    c.check(any(w.category is DefaultValueWarning for w in got)
            == (types['nz'] == 'none'), 'arrays', 'default warning of nz')
    m = Model(want)
    m.judge(c, cat, 'arrays')
    # Selections.
    i = int(rng.integers(num))
    c.check(all(cat[i][k] == want[k][i] for k in COLS), 'arrays',
            'row %d' % i)
    s = cat[1:num:2]
    c.check(all(np.array_equal(s[k], want[k][1:num:2]) for k in COLS),
            'arrays', 'slice')
    sequence(c, [cat], [m], 'arrays-ops')
    for k, v in keep.items():
        c.check(np.array_equal(np.asarray(kw[k]), np.asarray(v)),
                'arrays-owner', "the caller's %s changed" % k)


def los(c):
    from triumvirate.twopt import compute_corrfunc_window, compute_powspec
    rng = c.rng
    q = rand_cols(rng)
    num = len(q['x'])
    zero = []
    if rng.random() < .3:
        zero = [int(rng.integers(num))]
        for a in 'xyz':
            q[a][zero] = 0.
    cat = trv.make(q)
    c.params(num=num, zero=zero, head=q['x'][:3])
    p = trv.xyz(q)
    got = np.asarray(cat.compute_los())
    r = np.sqrt((p**2).sum(-1))
    want = np.where(r[:, None] > 0, p/np.where(r > 0, r, 1)[:, None], 0.)
    c.check(got.shape == (num, 3), 'los', 'shape %s' % (got.shape,))
    c.close(got, want, 'los', 1e-14, msg='lines of sight')
    Model(q).judge(c, cat, 'los-kept')
    # Lines of sight that do not match the particles are rejected.
    ps = trv.paramset([4e3]*3, [4]*3, '2pcf-win', 'random', [1., 500., 900.])
    bad = [np.ones((num + 1, 3)), np.ones((max(0, num - 1), 3)),
           np.ones((num, 2)), np.ones((3, num)) if num != 3
           else np.ones((4, 3)), np.ones(num), np.ones((num, 3, 1))]
    b = bad[rng.integers(len(bad))]
    c.raises(lambda: compute_corrfunc_window(trv.make(q), los_rand=b,
                                             paramset=ps),
             Exception, 'los-shape', 'lines of sight %s for %d particles'
             % (b.shape, num))
    ps = trv.paramset([4e3]*3, [4]*3, 'powspec', 'survey', [.001, .01, .1])
    which = ['los_data', 'los_rand'][rng.integers(2)]
    c.raises(lambda: compute_powspec(trv.make(q), trv.make(q), paramset=ps,
                                     **{which: b}),
             Exception, 'los-shape', '%s %s for %d particles'
             % (which, b.shape, num))


# -- files -------------------------------------------------------------------
def to_file(c, d, q, dtypes):
    """Write a catalogue in some format; (path, arguments of reading,
    columns held)."""
    from astropy.table import Table
    rng = c.rng
    num = len(q['x'])
    fmt = ['ascii.no_header', 'ascii.no_header', 'ascii', 'text',
           'ascii.commented_header', 'ascii.csv', 'ascii.basic', 'fits',
           'hdf5', None][rng.integers(10)]
    text = fmt not in ('fits', 'hdf5')
    have = [k for k in COLS if k in 'xyz' or rng.random() < .7]
    names = have + ['extra', 'more'][:rng.integers(3)]
    names = [names[i] for i in rng.permutation(len(names))]
    alt = {k: {'x': 'RA_X', 'y': 'Ypos', 'z': 'zz', 'nz': 'NZ',
               'ws': 'WEIGHT_SYS', 'wc': 'WEIGHT_FKP'}[k]
           for k in have if rng.random() < .4} if rng.random() < .5 else {}
    cols, held, types = [], {}, {}
    for k in names:
        v = q.get(k)
        if v is None:
            cols.append(rng.uniform(0, 9, num))
            continue
        t = dtypes[rng.integers(len(dtypes))]
        b, h = exact(np.rint(v*3) if t[0] == 'i' else v, t)
        cols.append(h if text and t[0] != 'i' else b)
        held[k], types[k] = h, t
    for k in COLS:
        held.setdefault(k, np.full(num, 0. if k == 'nz' else 1.))
    t = Table(cols, names=[alt.get(k, k) for k in names])
    path = os.path.join(d, 'cat.' + ('fits' if fmt == 'fits' else 'hdf5'
                                     if fmt == 'hdf5' else 'dat'))
    kw = {}
    if fmt is not None:
        kw['format'] = fmt
    if fmt in ('ascii.no_header', 'text', None) or (
            fmt == 'ascii' and rng.random() < .5):
        kw['names'] = list(t.colnames)
        with open(path, 'w') as fh:
            if rng.random() < .4:
                fh.write('# %s\n' % ' '.join(t.colnames))
            sep = [' ', '\t', '  '][rng.integers(3)]
            for i in range(num):
                fh.write(sep.join(repr(col[i].item()) for col in cols)
                         + '\n')
                if rng.random() < .02:
                    fh.write('# comment\n')
    elif fmt == 'hdf5':
        t.write(path, format='hdf5', path='cat')
        if rng.random() < .5:
            kw['table_kwargs'] = {'path': 'cat'}
    elif fmt == 'fits':
        t.write(path, format='fits')
    else:
        t.write(path, format='ascii.basic' if fmt == 'ascii' else fmt)
        if rng.random() < .3 and fmt == 'ascii.basic':
            kw['table_kwargs'] = {'guess': False}
    if alt:
        kw['name_mapping'] = alt
    c.params(format=fmt, num=num, columns=names, mapping=alt, types=types,
             reading=sorted(kw))
    return path, kw, held, have


def files(c):
    from pathlib import Path
    from triumvirate.catalogue import (DefaultValueWarning,
                                       MissingValueError, ParticleCatalogue)
    rng = c.rng
    d = tempfile.mkdtemp(dir=c.scratch)
    q = rand_cols(rng)
    path, kw, held, have = to_file(c, d, q, ['f8', 'f8', 'f4', 'i8'])
    key = 'files/%s' % kw.get('format')
    if rng.random() < .3:
        path = Path(path)
    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter('always')
        cat = ParticleCatalogue.read_from_file(path, **kw)
    told = [str(w.message) for w in got
            if w.category is DefaultValueWarning]
    for k in COLS[3:]:
        c.check(any("'%s'" % k in t for t in told) == (k not in have), key,
                'default of %s: %s' % (k, told))
    m = Model(held)
    m.judge(c, cat, key)
    c.check(str(path) in str(cat), key, 'source not told by %s' % cat)
    sequence(c, [cat], [m], 'files-ops')
    # A catalogue without a coordinate is rejected.
    t = 'xyz'[rng.integers(3)]
    if 'name_mapping' not in kw:
        kw['name_mapping'] = {}
    kw['name_mapping'] = {a: b for a, b in kw['name_mapping'].items()
                          if a != t}
    if t in held and 'names' in kw:
        alt = kw['names']
        kw['names'] = ['lost' if n in (t, {'x': 'RA_X', 'y': 'Ypos',
                                           'z': 'zz'}[t]) else n
                       for n in alt]
        c.raises(lambda: ParticleCatalogue.read_from_file(path, **kw),
                 MissingValueError, 'files-missing', 'no %s' % t)


# -- operations --------------------------------------------------------------
def rand_box(rng, m):
    span = np.ptp(np.vstack([a.p for a in m]), axis=0)
    box = np.where(span > 0, span, 1.)*rng.uniform(1., 3., 3)
    if rng.random() < .2:
        box *= rng.uniform(.3, 1., 3)
    if rng.random() < .3:
        box[:] = box.max()
    return np.round(box, 3) + 1e-3


def arg(rng, v):
    """A box as a scalar where possible, a list, a tuple or an array."""
    if np.all(v == v[0]) and rng.random() < .7:
        return v[0].item()
    return [list, tuple, np.array][rng.integers(3)](
        [x.item() for x in v])


def outside(m, box):
    p = np.vstack([a.p for a in m])
    return (p < -1e-6*box).any() or (p > box*(1 + 1e-6)).any()


def surely_inside(m, box):
    p = np.vstack([a.p for a in m])
    return (p > 1e-6*box).all() and (p < box*(1 - 1e-6)).all() and all(
        (np.ptp(a.p, axis=0) < box*(1 - 1e-6)).all() for a in m)


def sequence(c, cats, m, key, steps=5):
    """Random operations on one catalogue or a pair (the last is the
    reference)."""
    rng = c.rng
    for _ in range(int(rng.integers(1, steps + 1))):
        op = ['centre', 'pad', 'pad', 'periodise', 'offset', 'set',
              'density', 'undo'][rng.integers(8)]
        box = rand_box(rng, m)
        ref = m[-1]
        lo, hi = ref.p.min(0), ref.p.max(0)
        scale = max(np.abs(np.vstack([a.p for a in m])).max(), box.max())
        ckw = {} if len(cats) == 1 and rng.random() < .7 else dict(
            catalogue_ref=cats[-1])
        moved, warned = None, None
        with warnings.catch_warnings(record=True) as got:
            warnings.simplefilter('always')
            if op == 'centre':
                cats[0].centre(arg(rng, box), **ckw)
                moved = (lo + hi)/2 - box/2
            elif op == 'pad':
                f = rng.uniform(0., .5, 3)
                if rng.random() < .5:
                    f[:] = f[0]
                if rng.random() < .5:
                    cats[0].pad(arg(rng, box), boxsize_pad=arg(rng, f),
                                **ckw)
                    moved = lo - f*box
                else:
                    n = rng.integers(2, 64, 3)
                    f = f*8
                    cats[0].pad(arg(rng, box), arg(rng, n), ngrid_pad=arg(
                        rng, f), **ckw)
                    moved = lo - f*box/n
            elif op == 'periodise':
                i = int(rng.integers(len(cats)))
                mid = (m[i].p.min(0) + m[i].p.max(0))/2
                cats[i].periodise(arg(rng, box))
                m[i].move((m[i].p + box/2 - mid) % box)
                m[i].judge(c, cats[i], key + '/periodise', box, scale)
                c.check((m[i].p >= 0).all() and (m[i].p < box).all(),
                        key + '/periodise', 'outside the box', got=m[i].p,
                        box=box)
            elif op == 'offset':
                moved = scale*rng.uniform(-1, 1, 3)
                i = int(rng.integers(len(cats)))
                cats[i].offset_coords(arg(rng, moved))
                m[i].move(m[i].p - moved)
                m[i].judge(c, cats[i], key + '/offset', scale=scale)
                moved = None
            elif op == 'undo':
                before = [a.p for a in m]
                t = scale*rng.uniform(-1, 1, 3)
                cats[0].offset_coords(t)
                cats[0].offset_coords(-t)
                m[0].judge(c, cats[0], key + '/undo', scale=scale)
                del before
            elif op == 'set':
                i = int(rng.integers(len(cats)))
                k = COLS[rng.integers(6)]
                v = rng.permutation(m[i].q[k])*rng.uniform(.5, 1.5)
                cats[i][k] = v if rng.random() < .5 else list(v)
                m[i].q[k] = np.array(v)
                m[i].total()
                m[i].judge(c, cats[i], key + '/set')
            elif op == 'density':
                i = int(rng.integers(len(cats)))
                if rng.random() < .5:
                    cats[i].compute_mean_density(volume=float(box.prod()))
                else:
                    cats[i].compute_mean_density(boxsize=arg(rng, box))
                nz = np.asarray(cats[i]['nz'])
                c.close(nz, np.full(len(nz), len(nz)/box.prod()),
                        key + '/density', 1e-12, msg='density')
                m[i].q['nz'] = np.array(nz)
        c.count(op)
        if moved is not None:
            for a, cat in zip(m, cats):
                a.move(a.p - moved)
                a.judge(c, cat, key + '/' + op, scale=scale)
            said = any(re.search('box', str(w.message)) for w in got)
            if outside(m, box):
                c.check(said, key + '/reported', 'particles outside the box '
                        'not reported after %s' % op)
                c.count('outside reports')
            elif surely_inside(m, box):
                c.check(not said, key + '/reported', 'reported %s'
                        % [str(w.message) for w in got])


def refused(c):
    """Calls which cannot be followed leave the catalogue alone."""
    from triumvirate.catalogue import ParticleCatalogue
    rng = c.rng
    q, q2 = rand_cols(rng), rand_cols(rng)
    cat, ref = trv.make(q), trv.make(q2)
    m, mref = Model(q), Model(q2)
    n = len(q['x'])
    box = rand_box(rng, [m, mref])
    kw = {} if rng.random() < .4 else dict(catalogue_ref=ref)
    c.params(num=n, head=q['x'][0], box=box, ref=bool(kw))
    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter('always')
        cat.pad(arg(rng, box), **kw)
    c.check(any('adding' in str(w.message) for w in got), 'pad',
            'padding by nothing is not reported')
    f = rng.uniform(0, .5)
    calls = [
        (lambda: cat.pad(arg(rng, box), 8, boxsize_pad=f, ngrid_pad=f,
                         **kw), ValueError, 'pad both ways'),
        (lambda: cat.__setitem__(int(rng.integers(n)), 1.), ValueError,
         'set a row'),
        (lambda: cat.__setitem__(['x', 'y'][:1], q['x']), ValueError,
         'set a list of columns'),
        (lambda: cat.__setitem__(COLS[rng.integers(6)],
                                 np.ones(n + 1 + int(rng.integers(3)))),
         ValueError, 'set a column of another length'),
        (lambda: cat['w'], KeyError, 'get an unknown column'),
        (lambda: cat[n], IndexError, 'get a row after the last'),
    ]
    for i in rng.permutation(len(calls))[:4]:
        c.raises(calls[i][0], calls[i][1], 'refused', calls[i][2])
    m.judge(c, cat, 'refused/kept', scale=1.)
    mref.judge(c, ref, 'refused/kept', scale=1.)
    # Selections are those of the columns.
    i = int(rng.integers(-n, n))
    row = cat[i]
    c.check(all(row[k] == m.q[k][i] for k in COLS), 'select',
            'row %d is %s' % (i, row))
    a = slice(*sorted(rng.integers(0, n + 1, 2).tolist()),
              int(rng.integers(1, 4)))
    pick = rng.integers(0, n, int(rng.integers(1, 6))).tolist()
    names = [COLS[j] for j in rng.permutation(6)[:rng.integers(1, 6)]]
    for sel in (a, pick):
        t = cat[sel]
        c.check(all(np.array_equal(np.asarray(t[k]), m.q[k][sel])
                    for k in COLS), 'select', 'rows %s' % (sel,))
    t = cat[names]
    c.check(all(np.array_equal(np.asarray(t[k]), m.q[k]) for k in names),
            'select', 'columns %s' % names)
    c.check(len(cat) == n == cat.ntotal, 'select', 'length %d' % len(cat))
    path = os.path.join(c.scratch, 'f.txt')
    np.savetxt(path, np.column_stack([q[k] for k in COLS]))
    c.raises(lambda: ParticleCatalogue.read_from_file(
        path, reader=['pandas', 'fitsio', ''][rng.integers(3)], names=COLS),
        ValueError, 'refused', 'an unknown reader')


def ops(c):
    rng = c.rng
    pair = rng.random() < .6
    qs = [rand_cols(rng) for _ in range(2 if pair else 1)]
    if pair and rng.random() < .7:    # data among the randoms
        lo, hi = trv.xyz(qs[1]).min(0), trv.xyz(qs[1]).max(0)
        p = lo + (hi - lo)*rng.random((len(qs[0]['x']), 3))
        qs[0].update(zip('xyz', p.T.copy()))
    cats, m = [trv.make(q) for q in qs], [Model(q) for q in qs]
    c.params(num=[len(q['x']) for q in qs], head=[q['x'][0] for q in qs])
    sequence(c, cats, m, 'ops', 8)
    text = cats[0].write_attrs_as_header(*([cats[1]] if pair else []))
    nums = [[float(x) for x in re.findall(r'[-+]?\d+\.?\d*', ln.split(
        ':', 1)[1])] for ln in text.split('\n') if 'source' not in
        ln.split(':')[0].lower() or 'extents' in ln]
    c.check(len(nums) == 2*len(cats), 'header', text)
    for i, (a, cat) in enumerate(zip(m, cats)):
        want = [len(cat), a.w, a.ws]
        ext = [f(a.q[k]) for k in 'xyz' for f in (np.min, np.max)]
        c.check(np.allclose(nums[2*i], want, 1e-12, 6e-4)
                and np.allclose(nums[2*i+1], ext, 1e-12, 6e-4), 'header',
                'header says %s, not %s %s' % (nums[2*i:2*i+2], want, ext))


def types(c):
    """A measurement does not depend on how numbers are stored."""
    rng = c.rng
    r = req.Req(c, req.KINDS[rng.integers(len(req.KINDS))])
    given, held, t = [], [], []
    for q in r.cols:
        g, h, tt = {}, {}, {}
        for k, v in q.items():
            g[k], h[k], tt[k] = column(
                rng, v, [a for a in DTYPES if a[0] != 'i' or k != 'nz'])
        given.append(g)
        held.append(h)
        t.append(tt)
    r.conv = ['particle', 'none', 'mesh'][rng.integers(3)] \
        if r.conv != 'mesh-mixed' else 'none'
    c.params(types=t, **r.describe())
    from triumvirate.catalogue import ParticleCatalogue
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        a = r.run([ParticleCatalogue(**g) for g in given])
        b = r.run([ParticleCatalogue(**h) for h in held])
    for k in b:
        if k == 'header':
            continue
        if not np.isfinite(b[k]).all():
            c.check(np.array_equal(np.isfinite(a[k]), np.isfinite(b[k])),
                    'types', 'finiteness of %s' % k)
            continue
        s = r.noise({k: v for k, v in b.items() if k != 'header'}) \
            if np.iscomplexobj(b[k]) else None
        c.close(a[k], b[k], 'types', 1e-9, s, msg=k)


# -- the C++ class -------------------------------------------------------------
def cpp(c):
    rng = c.rng
    d = tempfile.mkdtemp(dir=c.scratch)
    lines, m, tell = [], [], []
    num3 = lambda v: ' '.join(repr(float(x)) for x in v)
    int3 = lambda v: ' '.join(str(int(x)) for x in v)
    for i in range(2):
        q = rand_cols(rng)
        num = len(q['x'])
        if rng.random() < .5:
            names = [k for k in COLS if k in 'xyz' or rng.random() < .7] \
                + ['other'][:rng.integers(2)]
            names = [names[j] for j in rng.permutation(len(names))]
            vol = float(rng.choice([0., 1e6]))
            cut = int(rng.integers(1, num + 1)) if rng.random() < .3 else num
            parts = []
            for j, s in enumerate([slice(0, cut), slice(cut, num)]):
                if s.start == num:
                    continue
                f = os.path.join(d, 'c%d%d.txt' % (i, j))
                prog.write_catalogue(f, {k: v[s] for k, v in q.items()},
                                     names, rng)
                parts.append(f)
            for k in COLS[3:]:
                if k not in names:
                    q[k] = np.full(num, 1. if k != 'nz' else
                                   num/vol if vol else 0.)
            lines.append('file %d %s %s %r' % (i, '::'.join(parts),
                                               ','.join(names), vol))
            tell.append(names)
        else:
            lines.append('data %d %d' % (i, num))
            lines += [' '.join(repr(float(q[k][j])) for k in COLS)
                      for j in range(num)]
            tell.append(num)
        m.append(Model(q))
    lines += ['dump 0', 'dump 1']
    state = [[a.p for a in m]]
    ops_ = []
    for _ in range(int(rng.integers(1, 7))):
        op = ['centre', 'centre2', 'padbox', 'padbox2', 'padgrid',
              'padgrid2', 'offset', 'periodic'][rng.integers(8)]
        i = int(rng.integers(2))
        two = op.endswith('2')
        P = list(state[-1])
        ref = P[1 - i] if two else P[i]
        lo, hi = ref.min(0), ref.max(0)
        span = np.where(hi > lo, hi - lo, 1.)
        box = span*rng.uniform(.5, 3., 3)
        f, n = rng.uniform(0, 2., 3), rng.integers(2, 64, 3)
        args = '%d %d' % (i, 1 - i) if two else '%d' % i
        on = [0, 1] if two else [i]
        if op.startswith('centre'):
            t = (lo + hi)/2 - box/2
            args += ' ' + num3(box)
        elif op.startswith('padbox'):
            t = lo - f*box
            args += ' %s %s' % (num3(box), num3(f))
        elif op.startswith('padgrid'):
            t = lo - f*box/n
            args += ' %s %s %s' % (num3(box), int3(n), num3(f))
        elif op == 'offset':
            t = span*rng.uniform(-9, 9, 3)
            args += ' ' + num3(t)
        else:
            t = None
            args += ' ' + num3(box)
        for j in on:
            P[j] = P[j] % box if t is None else P[j] - t
        state.append(P)
        ops_.append((op, i, box if t is None else None))
        lines += ['%s %s' % (op, args), 'dump 0', 'dump 1']
    c.params(given=tell, ops=[o[:2] for o in ops_],
             head=[a.q['x'][0] for a in m])
    path = os.path.join(d, 's.txt')
    with open(path, 'w') as fh:
        fh.write('\n'.join(lines) + '\n')
    res = subprocess.run([os.environ['VERIF_CAT'], path], text=True,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=san_env(leaks=True, preload=False,
                                     OMP_NUM_THREADS=2))
    if not c.check(res.returncode == 0 and 'REJECTED' not in res.stdout,
                   'cpp/run', 'exit %d: %s %s' % (
                       res.returncode, res.stdout[-300:] if
                       'REJECTED' in res.stdout else '',
                       res.stderr[-1500:])):
        return
    out = res.stdout.split('\n')
    dumps, k = [], 0
    while k < len(out):
        if out[k].startswith('CAT'):
            h = [float(x) for x in out[k].split()[1:]]
            n = int(h[0])
            dumps.append((h, np.array([[float(x) for x in ln.split()]
                                       for ln in out[k+1:k+1+n]])))
            k += n
        k += 1
    big = max(np.abs(P).max() for s in state for P in s)
    for s, P in enumerate(state):
        op, who, box = ops_[s-1] if s else ('load', 0, None)
        for i in (0, 1):
            h, tab = dumps[2*s + i]
            a, key = m[i], 'cpp/' + op
            if not c.check(tab.shape == (len(a.q['x']), 7)
                           and h[0] == len(tab), key,
                           '%d particles' % h[0]):
                continue
            for k, col in zip(COLS[3:], tab.T[3:6]):
                c.check(np.array_equal(col, a.q[k]) if k != 'nz' else
                        np.allclose(col, a.q[k], 1e-15, 0), key,
                        'column %s' % k, got=col, want=a.q[k])
            c.check(np.array_equal(tab[:, 6], tab[:, 4]*tab[:, 5]), key,
                    'overall weight')
            c.check(abs(h[1] - a.w) <= 1e-12*a.w
                    and abs(h[2] - a.ws) <= 1e-12*a.ws, key,
                    'totals %s, not %r %r' % (h[1:3], a.w, a.ws))
            p = tab[:, :3]
            if not s:
                c.check(np.array_equal(p, P[i]), key, 'positions',
                        got=p, want=P[i])
            dp = p - P[i]
            if box is not None and i == who:
                dp -= box*np.rint(dp/box)
                c.check((p >= 0).all() and (p < box).all(), key,
                        'outside the box', got=p, box=box)
            # Wrapping amplifies no error but may change what comes next.
            c.check(np.abs(dp).max() <= 1e-12*big, key,
                    'positions off by %.3g' % np.abs(dp).max(), got=p,
                    want=P[i])
            e = np.stack([p.min(0), p.max(0), np.ptp(p, axis=0)], -1)
            c.check(np.array_equal(np.array(h[3:]).reshape(3, 3), e), key,
                    'extents %s, not %s' % (h[3:], e))
            if box is not None and i == who and not np.allclose(
                    p, P[i], 0, 1e-9*big):
                return      # on the edge of the box: the rest differs
        c.count(op)
    mem = [ln for ln in out if ln.startswith('MEM')]
    c.check(mem and abs(float(mem[0].split()[1])) < 1e-12, 'cpp/memory',
            'memory still accounted for: %s' % mem)


def cpp_reject(c):
    """Files the C++ class cannot read as catalogues."""
    rng = c.rng
    d = tempfile.mkdtemp(dir=c.scratch)
    q = rand_cols(rng, int(rng.integers(1, 30)))
    names = ['x', 'y', 'z', 'nz', 'ws', 'wc']
    f = os.path.join(d, 'c.txt')
    prog.write_catalogue(f, q, names)
    what = ['nofile', 'nocoord', 'short', 'text', 'empty', 'nocols',
            'again', 'count', 'directory'][rng.integers(9)]
    cols = ','.join(names)
    text = open(f).read().split('\n')
    i = int(rng.integers(len(text) - 1))
    if what == 'nofile':
        path = f + '.missing'
        if rng.random() < .5:
            path = f + '::' + path
    else:
        path = f
    if what == 'nocoord':
        cols = ','.join(n if n != 'xyz'[i % 3] else 'q' for n in names)
    elif what == 'short':
        text[i] = ' '.join(text[i].split()[:int(rng.integers(1, 6))])
    elif what == 'text':
        t = text[i].split()
        t[rng.integers(6)] = ['abc', '--', 'x1', '?'][rng.integers(4)]
        text[i] = ' '.join(t)
    elif what == 'empty':
        text = [['# nothing', ''][rng.integers(2)]]*int(rng.integers(3))
    elif what == 'nocols':
        cols = '-'
    elif what == 'directory':
        path = d
    open(f, 'w').write('\n'.join(text) + '\n')
    s = ['file 0 %s %s 0.' % (path, cols)]
    if what == 'again':
        s = ['file 0 %s %s 0.' % (path, cols)]*2
    if what == 'count':
        s = ['data 0 0']
    c.params(what=what, cols=cols, line=text[i][:60] if text and
             i < len(text) else '', num=len(q['x']))
    with open(os.path.join(d, 's'), 'w') as fh:
        fh.write('\n'.join(s) + '\n')
    res = subprocess.run([os.environ['VERIF_CAT'], os.path.join(d, 's')],
                         text=True, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE,
                         env=san_env(leaks=True, preload=False,
                                     OMP_NUM_THREADS=2))
    c.check(res.returncode == 0 and 'REJECTED' in res.stdout,
            'cpp-reject/' + what, 'exit %d: %s %s' % (
                res.returncode, res.stdout[-200:], res.stderr[-1500:]))


GROUPS = [Group('arrays', arrays, 120, 2000), Group('files', files, 120,
                                                    2000),
          Group('ops', ops, 240, 4000), Group('los', los, 60, 600),
          Group('refused', refused, 80, 800),
          Group('types', types, 60, 600), Group('cpp', cpp, 80, 1000),
          Group('cpp-reject', cpp_reject, 60, 600)]

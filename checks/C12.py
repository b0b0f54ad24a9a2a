"""Symmetries of the estimators: related measurements, compared."""
import copy

import numpy as np

from verifkit import req, trv
from verifkit.worker import Group

RULE = ('A random request (statistic, catalogue type, box, mesh, assignment, '
        'interlacing, degrees, form, binning, normalisation, alignment, '
        'lines of sight) is measured twice, the second time after a '
        'transformation whose effect on the estimator is known; a case is '
        'one such pair; distinct by all parameters and the transformation.')
ASSUMPTIONS = ['exchanges, changes of axes and mirror images are compared '
               'without modes at the Nyquist limit of the mesh, whose signs '
               'are a convention']


def request(c, kinds=None, **kw):
    kinds = kinds or req.KINDS
    r = req.Req(c, kinds[c.rng.integers(len(kinds))], **kw)
    if r.conv == 'mesh-mixed':
        r.conv = ['mesh', 'particle'][c.rng.integers(2)]
    r.norm = r.normalisation()
    if not np.isfinite(r.norm):
        r.conv = 'mesh'
        r.norm = r.normalisation()
    if r.cat != 'sim' and c.rng.random() < .5:
        r.los = [trv.unit(c.rng.normal(0, 1, (len(q['x']), 3)))
                 for q in r.cols]
    return r


def odd_mesh(c, r):
    """Without Nyquist modes, whose signs are a convention: three-point
    estimators, of which half the terms are conjugates of the other half,
    are then symmetric to rounding."""
    r.n = np.asarray(r.n) | 1
    r.bs, r.edges, r.cen = trv.rand_edges(c.rng, r.box, r.n, r.space, r.npt,
                                          nmax=4)
    nb = len(r.cen)
    r.idx = int(np.clip(r.idx, 0 if r.form == 'row' else 1 - nb, nb - 1))
    if r.align is not None and r.align[0] == 'pad':
        r.align = ('centre',)
        r.pos = trv.place(r.cols, r.box, r.n, r.align)
    r.norm = r.normalisation()


def fix_los(r):
    """Give the automatic lines of sight explicitly."""
    if r.cat != 'sim' and r.los is None:
        r.los = [trv.unit(trv.xyz(q)) for q in r.cols]


def compare(c, r, a, b, key, factor=1., only=None, tol=1e-9, eff=1e-9,
            ratio=1., names=()):
    """Entries of `b` are those of `a`, times `factor` where complex and
    `ratio` where effective coordinates or bins."""
    key = '%s/%s-%s' % (key, r.stat, r.cat)
    s = r.noise(a)
    c.check(set(a) == set(b), key, 'entries %s and %s' % (
        sorted(a), sorted(b)))
    for k in a:
        if only is not None and np.iscomplexobj(a[k]) and not any(
                k.endswith(o) for o in only):
            continue
        if np.iscomplexobj(a[k]):
            c.close(b[k], factor*a[k], key, tol, s*abs(factor), msg=k)
        elif k.startswith(('nmodes', 'npairs')):
            c.check(np.array_equal(a[k], b[k]), key, '%s are %s and %s'
                    % (k, a[k], b[k]))
        else:
            c.close(b[k], ratio*a[k], key, eff, msg=k)
    c.count('pairs of measurements')


def columns(r):
    return [k for k in r.cols[0] if k not in 'xyz']


def order(c):
    """The order of objects is immaterial."""
    r = request(c)
    fix = c.rng.random() < .5
    if fix:
        fix_los(r)
    c.params(los=r.los is not None, **r.describe())
    a = r.run()
    q = copy.deepcopy(r)
    for i, cols in enumerate(q.cols):
        p = c.rng.permutation(len(cols['x']))
        for k in cols:
            cols[k] = cols[k][p]
        if q.los is not None:
            q.los[i] = q.los[i][p]
    compare(c, r, a, q.run(), 'order')


def split(c):
    """One object's weight may be shared by coincident objects."""
    r = request(c, [k for k in req.KINDS if k[1] != 'sim'])
    c.params(los=r.los is not None, **r.describe())
    a = r.run()
    q = copy.deepcopy(r)
    for i, cols in enumerate(q.cols):
        n = len(cols['x'])
        j = c.rng.integers(n, size=int(c.rng.integers(1, 9)))
        j = np.unique(j)
        f = c.rng.uniform(.1, .9, len(j))
        extra = {k: v[j] for k, v in cols.items()}
        extra['ws'] = extra['ws']*f
        cols['ws'] = cols['ws'].copy()
        cols['ws'][j] *= 1. - f
        for k in cols:
            cols[k] = np.concatenate([cols[k], extra[k]])
        if q.los is not None:
            q.los[i] = np.concatenate([q.los[i], q.los[i][j]])
    only = ('pk_raw', 'bk_raw', 'zeta_raw')
    compare(c, r, a, q.run(), 'split', only=only)


def twice(c):
    """Random catalogues given twice leave what is not shot noise."""
    r = request(c, [k for k in req.KINDS if k[1] == 'survey'])
    c.params(los=r.los is not None, **r.describe())
    a = r.run()
    q = copy.deepcopy(r)
    for k in q.cols[1]:
        q.cols[1][k] = np.tile(q.cols[1][k], 2)
    if q.los is not None:
        q.los[1] = np.tile(q.los[1], (2, 1))
    compare(c, r, a, q.run(), 'twice',
            only=('pk_raw', 'bk_raw', 'zeta_raw'))


def weights(c):
    """Common factors of the weights."""
    r = request(c, [k for k in req.KINDS if k[1] != 'sim'])
    r.conv = ['none', 'particle', 'mesh'][c.rng.integers(3)]
    r.norm = r.normalisation()
    if not np.isfinite(r.norm):
        r.conv, r.norm = 'none', 1.
    f = float(c.rng.uniform(.2, 5.))
    what = ['wc', 'ws-random', 'ws-all'][c.rng.integers(3)]
    if r.cat == 'random' and what == 'ws-random':
        what = 'ws-all'
    c.params(what=what, factor=f, los=r.los is not None, **r.describe())
    a = r.run()
    q = copy.deepcopy(r)
    for i, cols in enumerate(q.cols):
        if what == 'ws-random' and i == 0:
            continue
        k = what[:2]
        cols[k] = cols[k]*f
    # All weights times f: the raw estimate f^n; its normalisation f^-n but
    # for the sum over objects, linear in systematic weights.
    n = r.npt
    if what == 'ws-random':
        x = 1.
    elif what == 'wc':
        x = f**n if r.conv == 'none' else 1.
    else:
        x = dict(none=f**n, mesh=1., particle=f**(n-1))[r.conv]
    compare(c, r, a, q.run(), 'weights-' + what, x)


def idle(c):
    """Objects without weight change nothing."""
    r = request(c, [k for k in req.KINDS if k[1] != 'sim'])
    c.params(los=r.los is not None, **r.describe())
    a = r.run()
    q = copy.deepcopy(r)
    for i, cols in enumerate(q.cols):
        n, m = len(cols['x']), int(c.rng.integers(1, 20))
        p = trv.xyz(cols)
        lo, hi = p.min(0), p.max(0)
        extra = lo + (hi - lo)*c.rng.uniform(.01, .99, (m, 3))
        at = c.rng.integers(n + 1, size=m)
        for ax in range(3):
            cols['xyz'[ax]] = np.insert(cols['xyz'[ax]], at, extra[:, ax])
        for k in columns(r):
            v = 0. if k == 'ws' else c.rng.uniform(.5, 2., m)
            cols[k] = np.insert(cols[k], at, v)
        if q.los is not None:
            q.los[i] = np.insert(q.los[i], at, trv.unit(
                c.rng.normal(0, 1, (m, 3))), axis=0)
    compare(c, r, a, q.run(), 'idle')


def moved(c):
    """The origin of a survey is immaterial, given lines of sight."""
    r = request(c, [k for k in req.KINDS if k[1] != 'sim'])
    fix_los(r)
    by = r.box*c.rng.uniform(-3., 3., 3)
    c.params(by=by, **r.describe())
    a = r.run()
    q = copy.deepcopy(r)
    for cols in q.cols:
        for i, ax in enumerate('xyz'):
            cols[ax] = cols[ax] + by[i]
    compare(c, r, a, q.run(), 'moved', tol=1e-8)


def cells(c):
    """Whole-cell displacements in the box are immaterial: of a survey by
    its padding, of a periodic box by wrapping."""
    rng = c.rng
    if rng.random() < .6:
        r = request(c, [k for k in req.KINDS if k[1] == 'sim'])
        n, m = len(r.cols[0]['x']), int(rng.integers(1, 4))
        # Objects at both ends keep the extents, thus the placement.
        cell = r.box/r.n
        ends = np.array([r.box*1e-9, r.box*(1. - 1e-9)])
        p = np.vstack([ends, trv.xyz(r.cols[0])])
        cols = {k: np.concatenate([v[:2], v])
                for k, v in r.cols[0].items()}
        for i, ax in enumerate('xyz'):
            cols[ax] = p[:, i]
        r.cols = [cols]
        if r.nz is not None:
            r.nz = cols['nz']
        r.pos = [trv.periodise(cols, r.box)]
        r.norm = r.normalisation()
        steps = rng.integers(-m, m + 1, 3)
        c.params(steps=steps, **r.describe())
        a = r.run()
        q = copy.deepcopy(r)
        # Shift what lies between; the ends go round once as a pair would
        # not, so they are left and must be compensated: move them by whole
        # boxes only.
        p2 = (p[2:] + steps*cell) % r.box
        p2 = np.vstack([ends, p2])
        # The fixed pair breaks the symmetry: put a copy of the pair at its
        # displaced places in the second and the pair itself in the first.
        far = (ends + steps*cell) % r.box
        one = {k: np.concatenate([v, v[:2]]) for k, v in cols.items()}
        two = {k: np.concatenate([v, v[:2]]) for k, v in cols.items()}
        back = (ends - steps*cell) % r.box
        for i, ax in enumerate('xyz'):
            one[ax] = np.concatenate([p[:, i], back[:, i]])
            two[ax] = np.concatenate([p2[:, i], far[:, i]])
        del a
        # one: {ends, back, rest}; two: {ends, far, rest + steps}: two is
        # one displaced, as back goes to ends and ends to far.
        r.cols, q.cols = [one], [two]
        for s in (r, q):
            if s.nz is not None:
                s.nz = s.cols[0]['nz']
            s.pos = [trv.periodise(s.cols[0], s.box)]
            s.norm = s.normalisation()
        compare(c, r, r.run(), q.run(), 'cells-box', tol=1e-7)
        return
    while True:
        r = request(c, [k for k in req.KINDS if k[1] != 'sim'])
        r.wa = None    # powers of the position in the box
        f = float(rng.uniform(.1, .9))
        g = int(rng.integers(1, 4))
        pos = trv.place(r.cols, r.box, r.n, ('pad', 'grid', f + g))
        if all((p < r.box).all() and (p >= 0.).all() for p in pos):
            break
    r.align, r.pos = ('pad', 'grid', f), trv.place(
        r.cols, r.box, r.n, ('pad', 'grid', f))
    r.norm = r.normalisation()
    c.params(cells=g, **r.describe())
    q = copy.deepcopy(r)
    q.align = ('pad', 'grid', f + g)
    compare(c, r, r.run(), q.run(), 'cells-pad', tol=1e-8)


def axes(c):
    """The names of the axes are immaterial."""
    r = request(c)
    p = np.array([[1, 2, 0], [2, 0, 1], [1, 0, 2], [0, 2, 1], [2, 1, 0]][
        c.rng.integers(5)])
    if r.cat == 'sim':
        p = np.array([1, 0, 2])
    if r.npt == 3:
        odd_mesh(c, r)
    c.params(axes=p, **r.describe())
    a = r.run()
    q = copy.deepcopy(r)
    q.box, q.n = r.box[p], np.asarray(r.n)[p]
    for i, cols in enumerate(q.cols):
        x = trv.xyz(r.cols[i])
        for j, ax in enumerate('xyz'):
            cols[ax] = x[:, p[j]].copy()
        if q.los is not None:
            q.los[i] = r.los[i][:, p]
    compare(c, r, a, q.run(), 'axes', tol=1e-8)


def mirror(c):
    """Mirror images have the same measurements."""
    r = request(c)
    odd_mesh(c, r)
    r.il = False    # the interlaced mesh is displaced to one side
    ax = int(c.rng.integers(3))
    c.params(axis=ax, **r.describe())
    a = r.run()
    q = copy.deepcopy(r)
    for i, cols in enumerate(q.cols):
        cols['xyz'[ax]] = -cols['xyz'[ax]]
        if q.los is not None:
            q.los[i][:, ax] *= -1.
    # The line of sight of a periodic box is its last axis, upwards.
    x = (-1.)**r.deg[2] if r.cat == 'sim' and ax == 2 else 1.
    compare(c, r, a, q.run(), 'mirror', x, tol=1e-8)


def flip(c):
    """Opposite lines of sight change the sign of odd multipoles."""
    r = request(c, [k for k in req.KINDS if k[1] != 'sim'])
    fix_los(r)
    c.params(**r.describe())
    a = r.run()
    q = copy.deepcopy(r)
    q.los = [-v for v in r.los]
    compare(c, r, a, q.run(), 'flip', (-1.)**r.deg[2])


def scale(c):
    """A change of the unit of length."""
    r = request(c)
    r.wa = None    # the origin is left out of powers of positions
    u = float(c.rng.uniform(.55, 1.9))
    c.params(unit=u, **r.describe())
    a = r.run()
    q = copy.deepcopy(r)
    q.box = r.box*u
    q.edges = r.edges/u if r.fourier else r.edges*u
    for cols in q.cols:
        for ax in 'xyz':
            cols[ax] = cols[ax]*u
        if 'nz' in cols:
            cols['nz'] = cols['nz']/u**3
    n = r.npt
    x = dict(none=1., particle=u**(3*(n-1)), mesh=u**(3*(n-1)))[r.conv]
    if not r.fourier:
        x /= u**(3*(n-1))
    compare(c, r, a, q.run(), 'scale', x, tol=5e-6 if n == 3 else 1e-8,
            ratio=1./u if r.fourier else u)


PAIRED = [k for k in req.KINDS if k[0][0] in 'b3']


def rerun(r, form, idx=0, deg=None, wa=None):
    q = copy.deepcopy(r)
    q.form, q.idx = form, idx
    if deg is not None:
        q.deg = deg
    if wa is not None:
        q.wa = wa
    return q.run()


def table(r, got):
    """Entries of a three-point result by pair of bins."""
    p = 'k' if r.fourier else 'r'
    v = 'bk' if r.fourier else 'zeta'
    m = 'nmodes_' if r.fourier else 'npairs_'
    cen = np.asarray(r.cen)
    out = {}
    ks = [np.ravel(got[p+i+'_bin']) for i in '12']
    f = [np.ravel(got[k]) for k in (
        p+'1_eff', p+'2_eff', m+'1', m+'2', v+'_raw', v+'_shot')]
    for j in range(len(ks[0])):
        at = tuple(int(np.argmin(np.abs(cen - k[j]))) for k in ks)
        out[at] = [x[j] for x in f]
    return out


def forms(c):
    """Other forms are slices of the full form."""
    r = request(c, PAIRED)
    if r.deg[0] == r.deg[1] or c.rng.random() < .5:
        odd_mesh(c, r)
    nb = len(r.cen)
    c.params(**r.describe())
    full = table(r, rerun(r, 'full'))
    key = 'forms/%s-%s' % (r.stat, r.cat)
    sym = r.deg[0] == r.deg[1]
    want = {(i, j) for i in range(nb) for j in range(nb)
            if not sym or i <= j}
    if not c.check(set(full) == want, key, 'full form has pairs %s'
                   % sorted(full)):
        return
    todo = [('diag', 0), ('row', int(c.rng.integers(nb))),
            ('off-diag', int(c.rng.integers(-nb + 1, nb)))]
    r0 = r.run()
    s = r.noise(r0)
    for form, idx in todo:
        got = table(r, rerun(r, form, idx))
        if form == 'row':
            pairs = {(idx, j) for j in range(nb)}
        else:
            pairs = {(i, i + idx) for i in range(nb) if 0 <= i + idx < nb}
        if not c.check(set(got) == pairs, key, '%s %d has pairs %s'
                       % (form, idx, sorted(got))):
            continue
        for at in sorted(pairs):
            e = full.get(at)
            if e is None:
                if r.wa is not None and r.wa[0] != r.wa[1]:
                    continue
                e = full[at[::-1]]
                e = [e[1], e[0], e[3], e[2], e[4], e[5]]
            g = got[at]
            c.close(g[:4], e[:4], key, 1e-11, msg='%s %d %s' % (
                form, idx, at))
            c.close(g[4:], e[4:], key, 1e-9, s, msg='%s %d %s' % (
                form, idx, at))
    c.count('forms compared', 3)


def exchange(c):
    """Exchanging the two sides of three-point statistics."""
    while True:
        r = request(c, PAIRED)
        if r.deg[0] != r.deg[1]:
            break
    odd_mesh(c, r)
    c.params(**r.describe())
    a = table(r, rerun(r, 'full'))
    b = table(r, rerun(r, 'full', 0, (r.deg[1], r.deg[0], r.deg[2]),
                       None if r.wa is None else r.wa[::-1]))
    key = 'exchange/%s-%s' % (r.stat, r.cat)
    s = r.noise(r.run())
    s = max([s] + [abs(e[4]) for e in a.values()])
    for (i, j), e in a.items():
        g = b[j, i]
        c.close([g[1], g[0], g[3], g[2]], e[:4], key, 1e-11, msg='%s' % [
            (i, j)])
        c.close(g[4:], e[4:], key, 1e-8, s, msg='%s' % [(i, j)])
    c.count('pairs of measurements')


GROUPS = [Group(f.__name__, f, n, 12*n) for f, n in [
    (order, 40), (split, 40), (twice, 30), (weights, 45), (idle, 40),
    (moved, 40), (cells, 60), (axes, 60), (mirror, 50), (flip, 40),
    (scale, 50), (forms, 50), (exchange, 40)]]

"""Bins, the modes and pairs counted in them, and recorded vectors."""
import os
import shutil
import tempfile

import numpy as np

from verifkit.worker import Group
from verifkit import est, prog, ref, req, trv

RULE = ('Random binnings of every scheme (edges against their formulae, '
        'unusable ones offered), random meshes and boxes with bins that '
        'hold modes and bins that hold none, counts and effective '
        'coordinates of every statistic and recorded vectors (package and '
        'program) against direct enumeration of the mesh; distinct by '
        'scheme, limits, bin number, mesh, box and statistic.')
ASSUMPTIONS = [
    'edges of measured bins are kept further from any mode than the '
    'resolution at which measurements sort modes (1e-5 in wavenumber, 0.1 '
    'in separation, 1 for three-point pairs); recorded vectors are judged '
    'at exact edges where those are exact in floating point, otherwise '
    'vectors within 1e-12 of an edge may fall either way']
PAD = {'fourier': 1e-3, 'config': 10.}
NPAD = 5


def prepare(build):
    return {'VERIF_EXE': build.exe(), 'VERIF_EXESER': build.exe(omp=False)}


def expected_edges(scheme, lo, hi, nb, pad):
    if scheme == 'lin':
        return lo + (hi - lo)*np.arange(nb + 1)/nb
    if scheme == 'log':
        return lo*(hi/lo)**(np.arange(nb + 1)/nb)
    first = pad*np.arange(NPAD)
    sub = 'lin' if scheme == 'linpad' else 'log'
    return np.append(first, expected_edges(sub, pad*NPAD, hi, nb - NPAD,
                                           None))


def rand_binning(rng, space, scheme=None):
    """Usable (scheme, min, max, number)."""
    scheme = scheme or ['lin', 'log', 'linpad', 'logpad'][rng.integers(4)]
    s = 1. if space == 'fourier' else 1e3
    nb = int(rng.integers(1, 40)) if rng.random() < .8 \
        else int(rng.integers(40, 400))
    lo = s*10.**rng.uniform(-4, -1)
    hi = lo + s*10.**rng.uniform(-4, 0)
    if scheme in ('lin', 'linpad', 'logpad') and rng.random() < .3:
        hi, lo = hi, 0.
    if rng.random() < .5:
        lo, hi = float('%.2g' % lo), float('%.4g' % hi)
    if scheme.endswith('pad'):
        nb += NPAD
        hi = max(hi, PAD[space]*NPAD*rng.uniform(1.01, 5.))
        lo = min(lo, .5*hi)
    if hi <= lo:
        hi = 2*lo + s*.01
    return scheme, float(lo), float(hi), nb


def judge(c, b, key, lo, hi, want):
    e, m, w = (np.asarray(getattr(b, 'bin_' + k))
               for k in ('edges', 'centres', 'widths'))
    nb = len(want) - 1
    ok = c.check(len(e) == nb + 1 and len(m) == nb and len(w) == nb
                 and b.num_bins == nb, key,
                 '%d edges, %d centres, %d widths, num_bins %s for %d bins'
                 % (len(e), len(m), len(w), b.num_bins, nb))
    if not ok:
        return
    c.check((np.diff(e) > 0).all(), key, 'edges do not increase', edges=e)
    c.check(((m > e[:-1]) & (m < e[1:])).all(), key, 'centre outside bin',
            edges=e, centres=m)
    c.check(e[0] == lo and e[-1] == hi, key, 'edges span [%r, %r], not '
            '[%r, %r]' % (e[0], e[-1], lo, hi))
    c.close(e, want, key, 1e-12, msg='edges')
    c.close(m, (want[:-1] + want[1:])/2, key, 1e-12, msg='centres')
    c.close(w, np.diff(want), key, 1e-12, scale=hi, msg='widths')


def edges(c):
    from triumvirate.dataobjs import Binning
    rng = c.rng
    space = ['fourier', 'config'][rng.integers(2)]
    scheme, lo, hi, nb = rand_binning(rng, space)
    how = ['init', 'set', 'paramset', 'grid', 'custom'][rng.integers(5)]
    key = 'edges-%s/%s' % (how, scheme)
    if how == 'grid':
        box = np.round(rng.uniform(100., 3000., 3), 2)
        n = rng.integers(2, 200, 3)
        one = rng.random() < .3
        c.params(how=how, space=space, box=box[0] if one else box,
                 n=n[0] if one else n)
        b = Binning(space, scheme)
        if rng.random() < .5:
            b.set_bins(lo, hi, nb)
        b.set_grid_based_bins(*((float(box[0]), int(n[0])) if one
                                else (box, n)))
        L, m = (box[0], n[0]) if one else (box.max(), n.min())
        d = 2*np.pi/L if space == 'fourier' else L/m
        top = (np.pi*m/L if space == 'fourier' else L/2) + d/2
        c.check(b.scheme == 'lin', key, 'scheme %r' % b.scheme)
        e = np.linspace(0, top, m//2 + 1)
        judge(c, b, 'edges-grid/' + space, 0., b.bin_max, e)
        return
    if how == 'custom':
        e = np.sort(rng.uniform(0, hi, nb + 1))
        e = e[np.append(True, np.diff(e) > 1e-9*hi)]
        if len(e) < 2:
            e = np.array([lo, hi])
        c.params(how=how, space=space, edges=e)
        b = Binning(space, scheme)
        if rng.random() < .5:
            b.set_bins(lo, hi, nb)
        b.set_custom_bins(e if rng.random() < .5 else list(e))
        c.check(b.scheme == 'custom', key, 'scheme %r' % b.scheme)
        judge(c, b, 'edges-custom', e[0], e[-1], e)
        c.check(b.bin_min == e[0] and b.bin_max == e[-1], key, 'limits')
        return
    c.params(how=how, space=space, scheme=scheme, lo=lo, hi=hi, nb=nb)
    if how == 'paramset':
        nb = max(nb, NPAD + 2)    # least numbers of parameter sets
        ps = trv.paramset([1000.]*3, [8]*3, 'powspec' if space == 'fourier'
                          else '2pcf', 'survey', [lo] + [hi]*nb, scheme)
        b = Binning.from_parameter_set(ps)
        c.check(b.space == space, key, 'space %r' % b.space)
    elif how == 'init':
        b = Binning(space, scheme, lo, hi, nb)
    else:
        s2, lo2, hi2, nb2 = rand_binning(rng, space, scheme)
        b = Binning(space, scheme, lo2, hi2, nb2)
        if rng.random() < .3:
            b.set_custom_bins([1., 2., 3.])
            b = Binning(space, scheme, lo2, hi2, nb2)
        b.set_bins(lo, hi, nb)
    c.check(b.scheme == scheme and b.bin_min == lo and b.bin_max == hi, key,
            'attributes %r %r %r' % (b.scheme, b.bin_min, b.bin_max))
    judge(c, b, key, 0. if scheme.endswith('pad') else lo, hi,
          expected_edges(scheme, lo, hi, nb, PAD[space]))


def unusable(c):
    """No binning whose bins would be too many, empty or decreasing."""
    from triumvirate.dataobjs import Binning
    rng = c.rng
    space = ['fourier', 'config'][rng.integers(2)]
    scheme, lo, hi, nb = rand_binning(rng, space)
    pad = PAD[space]
    what = ['number', 'negative', 'order', 'equal', 'scheme', 'logzero',
            'padnum', 'padmax', 'custom-order', 'custom-equal',
            'custom-short', 'custom-negative'][rng.integers(12)]
    e = np.sort(rng.uniform(lo, hi, 6))
    if what == 'number':
        nb = -int(rng.integers(0, 3))
    elif what == 'negative':
        lo = -.1*hi
    elif what == 'order':
        scheme, lo, hi = scheme[:3], hi, hi*rng.uniform(.1, .9)
    elif what == 'equal':
        scheme, lo = scheme[:3], hi
    elif what == 'scheme':
        scheme = ['linear', '', 'LOG', 'bad'][rng.integers(4)]
    elif what == 'logzero':
        scheme, lo = 'log', 0.
    elif what == 'padnum':
        scheme = ['linpad', 'logpad'][rng.integers(2)]
        lo, hi, nb = 0., pad*9, int(rng.integers(1, NPAD + 1))
    elif what == 'padmax':
        scheme = ['linpad', 'logpad'][rng.integers(2)]
        lo, hi = 0., pad*NPAD*rng.choice([1., .9, .5])
        nb = int(rng.integers(NPAD + 1, 20))
    elif what == 'custom-order':
        i = int(rng.integers(5))
        e[i], e[i+1] = e[i+1], e[i]
    elif what == 'custom-equal':
        i = int(rng.integers(5))
        e[i+1] = e[i]
    elif what == 'custom-short':
        e = e[:1]
    elif what == 'custom-negative':
        e = e - e[0] - .1*hi
    c.params(what=what, space=space, scheme=scheme, lo=lo, hi=hi, nb=nb,
             edges=e)

    def make():
        b = Binning(space, 'lin' if what.startswith('custom') else scheme)
        if what.startswith('custom'):
            b.set_custom_bins(e)
        elif rng.random() < .5:
            b.set_bins(lo, hi, nb)
        else:
            Binning(space, scheme, lo, hi, nb)
    c.raises(make, Exception, 'unusable/' + what, 'unusable binning')


# -- enumeration of the mesh ---------------------------------------------
def vectors(box, n, space):
    """Index vectors of the mesh points and their coordinates."""
    ax = [np.arange(m) for m in n]
    ax = [np.where(a < (m + 1)//2, a, a - m) for a, m in zip(ax, n)]
    i = np.stack(np.meshgrid(*ax, indexing='ij'), -1).reshape(-1, 3)
    step = 2*np.pi/np.asarray(box) if space == 'fourier' \
        else np.asarray(box)/np.asarray(n)
    return i, i*step


def make_binning(rng, r, custom=True):
    """A binning for a request: its own, or custom edges about the same."""
    b = r.binning()
    if custom and rng.random() < .4:
        b.set_custom_bins(np.array(r.edges))
    return b


def counts(c, kind):
    """Counts and effective coordinates of a measurement."""
    rng = c.rng
    r = req.Req(c, kind, lo=4, hi=12 if kind[0][0] in 'p2' else 8)
    x = np.sqrt((vectors(r.box, r.n, r.space)[1]**2).sum(-1))
    empty = rng.random() < .5
    if empty:
        r.bs, r.edges, r.cen = trv.rand_edges(
            rng, r.box, r.n, r.space, r.npt, nmin=3, nmax=9, empty=True)
    nb = len(r.cen)
    r.form, r.idx = est.rand_form(rng, nb) if r.npt == 3 else ('diag', 0)
    key = 'counts/%s-%s' % kind
    c.params(empty=bool(empty), **r.describe())
    got = r.run(binning=make_binning(rng, r))
    n = np.array([((r.edges[i] <= x) & (x < r.edges[i+1])).sum()
                  for i in range(nb)])
    eff = np.array([x[(r.edges[i] <= x) & (x < r.edges[i+1])].mean()
                    if n[i] else np.nan for i in range(nb)])
    c.count('empty bins', int((n == 0).sum()))
    c.count('modes or pairs', int(n.sum()))
    p, q = ('k', 'nmodes') if r.fourier else ('r', 'npairs')
    if r.npt == 2:
        sets = [(p + 'bin', p + 'eff', q, np.arange(nb))]
    else:
        sets = []
        rows, cols = np.array(ref.dv_bins(r.form, nb, r.idx,
                                          r.deg[0] == r.deg[1])).T
        for s, ib in (('1', rows), ('2', cols)):
            sets.append(('%s%s_bin' % (p, s), '%s%s_eff' % (p, s),
                         '%s_%s' % (q, s), ib))
    for kb, ke, kn, ib in sets:
        g = got[kn].ravel()
        if not c.check(g.shape == ib.shape, key, '%d bins for %d'
                       % (g.size, ib.size)):
            continue
        c.check(np.array_equal(g, n[ib]), key, '%s are %s, not %s'
                % (kn, g[:9], n[ib][:9]))
        e = got[ke].ravel()
        lo, hi = r.edges[ib], r.edges[ib + 1]
        c.check(((e >= lo) & (e <= hi)).all(), key,
                '%s outside its bin' % ke, got=e, lower=lo, upper=hi,
                counts=n[ib])
        full = n[ib] > 0
        c.close(e[full], eff[ib][full], key, 1e-9, msg=ke)
        c.close(got[kb].ravel(), r.cen[ib], key, 1e-9, msg=kb)
    # Nothing is found in a bin without modes.
    for k in got:
        if np.iscomplexobj(got[k]):
            v = got[k].ravel()
            c.check(np.isfinite(v).all(), key, '%s not finite' % k,
                    got=v, counts=n)
            if r.npt == 2:
                c.check((v[n == 0] == 0).all(), key,
                        '%s non-zero in an empty bin' % k)


def compare_vectors(c, key, rec, box, n, space, e, exact, rel=1e-12):
    """Recorded vectors against the mesh; `rec` has six columns."""
    i, v = vectors(box, n, space)
    x = np.sqrt((v**2).sum(-1))
    step = 2*np.pi/np.asarray(box) if space == 'fourier' \
        else np.asarray(box)/np.asarray(n)
    ind = rec[0].astype(int)
    c.check((np.diff(ind) >= 0).all(), key, 'not in the order of bins')
    ok = c.check(((ind >= 0) & (ind < len(e) - 1)).all(), key,
                 'bin index out of range', index=ind)
    if not ok:
        return
    tol = 1e-15 if exact else rel
    c.close(rec[1], e[ind], key, tol, scale=e[-1], msg='lower edges')
    c.close(rec[2], e[ind + 1], key, tol, scale=e[-1], msg='upper edges')
    vec = np.stack(rec[3:], -1)
    j = np.rint(vec/step).astype(int)
    c.close(vec, j*step, key, max(tol, 1e-14), scale=np.abs(v).max(),
            msg='vectors')
    code = np.asarray(n) + 1
    pack = lambda a: ((a[:, 0] + code[0])*4*code[1] + a[:, 1] + code[1]) \
        * 4*code[2] + a[:, 2] + code[2]
    mine, theirs = pack(i), pack(j)
    c.check(len(np.unique(theirs)) == len(theirs), key,
            'a vector is listed twice')
    order = np.argsort(mine)
    pos = np.searchsorted(mine[order], theirs)
    pos = np.minimum(pos, len(mine) - 1)
    if not c.check((mine[order][pos] == theirs).all(), key,
                   'a vector is not on the mesh'):
        return
    at = order[pos]
    # Distance to the nearest edge decides whether either bin will do.
    near = np.abs(x[:, None] - e[None]).min(1) <= (
        0. if exact else rel*e[-1])
    if exact:
        near[:] = False
    want = np.searchsorted(e, x, side='right') - 1
    want[(x < e[0]) | (x >= e[-1])] = -1
    have = np.full(len(x), -1)
    have[at] = ind
    bad = (have != want) & ~near
    c.check(not bad.any(), key, '%d vectors in the wrong bin' % bad.sum(),
            vectors=v[bad][:5], have=have[bad][:5], want=want[bad][:5],
            edges=e)
    c.count('vectors', len(theirs))
    c.count('vectors at an edge', int((x[:, None] == e[None]).any(1).sum()))


def vec_setup(c):
    rng = c.rng
    space = ['fourier', 'config'][rng.integers(2)]
    exact = space == 'config' and rng.random() < .5
    n = rng.integers(2, 13, 3) if rng.random() < .6 \
        else np.full(3, rng.integers(2, 17))
    if exact:
        cell = 2.**rng.integers(0, 7, 3)
        box = n*cell
    else:
        box = np.round(rng.uniform(50., 2000., 3), 2)
        cell = 2*np.pi/box if space == 'fourier' else box/n
    top = np.sqrt(((n//2)*cell)@((n//2)*cell))
    scheme = ['lin', 'log', 'custom', 'custom', 'linpad',
              'logpad'][rng.integers(6)]
    nb = int(rng.integers(1, 9))
    hi = top*rng.choice([.2, .5, .8, 1., 1.3, 4.])
    lo = hi*rng.choice([0., .01, .3]) if scheme != 'log' \
        else hi*rng.uniform(.01, .5)
    if scheme == 'custom':
        e = np.sort(rng.uniform(lo, hi, nb + 1))
        # Edges at modes on the axes and off them.
        for t in range(len(e)):
            if rng.random() < .5:
                a = int(rng.integers(3))
                e[t] = cell[a]*rng.integers(0, n[a]//2 + 2)
        e = np.unique(e)
        if len(e) < 2:
            e = np.array([0., hi])
        spec = None
    else:
        if scheme.endswith('pad'):
            nb += NPAD
            hi = max(hi, 6*PAD[space])
        spec = (scheme, float(lo), float(hi), nb)
        e = None
    return space, exact, box, n, spec, e


def build_binning(space, spec, e):
    from triumvirate.dataobjs import Binning
    if spec is None:
        b = Binning(space, 'lin')
        b.set_custom_bins(e)
        return b
    return Binning(space, *spec)


def recorded(c):
    from triumvirate.fieldmesh import record_binned_vectors
    rng = c.rng
    space, exact, box, n, spec, e = vec_setup(c)
    b = build_binning(space, spec, e)
    e = np.asarray(b.bin_edges)
    how = ['args', 'paramset', 'override', 'scalar'][rng.integers(4)]
    if how == 'scalar':
        box, n = np.full(3, box[0]), np.full(3, n[0])
    if len(e) < 3 and how != 'paramset':
        how = 'override'     # parameter sets hold two bins at least
    c.params(space=space, exact=exact, box=box, n=n, spec=spec, edges=e,
             how=how)
    ps = lambda bx, m: trv.paramset(bx, m, 'powspec', 'survey', [.1, .5, 1.])
    if how == 'args':
        v = record_binned_vectors(b, boxsize=list(box), ngrid=list(n))
    elif how == 'scalar':
        v = record_binned_vectors(b, boxsize=float(box[0]), ngrid=int(n[0]))
    elif how == 'paramset':
        v = record_binned_vectors(b, ps(box, n))
    else:
        v = record_binned_vectors(b, ps(box*2, n + 2), list(box), list(n))
    names = ('index', 'lower_edge', 'upper_edge', 'vecx', 'vecy', 'vecz')
    if c.check(v.dtype.names == names, 'vectors', 'fields %s'
               % (v.dtype.names,)):
        compare_vectors(c, 'vectors/' + space, [v[k] for k in names], box,
                        n, space, e, exact)


def agree(c):
    """The recorded vectors are those a measurement counts."""
    from triumvirate.fieldmesh import record_binned_vectors
    rng = c.rng
    r = req.Req(c, req.KINDS[rng.integers(len(req.KINDS))], lo=4, hi=8)
    r.form, r.idx = 'diag', 0
    b = make_binning(rng, r)
    c.params(**r.describe())
    got = r.run(binning=b)
    ps = r.paramset()
    v = record_binned_vectors(b, ps)
    nb = len(r.cen)
    n = np.bincount(v['index'], minlength=nb)
    x = np.sqrt(v['vecx']**2 + v['vecy']**2 + v['vecz']**2)
    eff = np.bincount(v['index'], x, minlength=nb) / n
    s = '' if r.npt == 2 else '_1'
    p, q = ('k', 'nmodes') if r.fourier else ('r', 'npairs')
    key = 'agree/%s-%s' % (r.stat, r.cat)
    c.check(np.array_equal(got[q + s].ravel(), n), key, 'counted %s, '
            'recorded %s' % (got[q + s], n))
    c.close(got[p + ('eff' if r.npt == 2 else '1_eff')].ravel(), eff, key,
            1e-9, msg='effective coordinates')


def program(c):
    """Binned vectors written by the program."""
    rng = c.rng
    d = tempfile.mkdtemp(dir=c.scratch)
    space, exact, box, n, spec, e = vec_setup(c)
    alone = rng.random() < .6
    tag = ['', '_t'][rng.integers(2)]
    if alone:
        n = np.maximum(n, 2)
        if spec is None:
            spec = ('lin', 0., float(e[-1]), len(e))
        scheme, lo, hi, nb = spec
        pad = 1.005*(2*np.pi/box.max() if space == 'fourier'
                     else box.max()/n.min())
        if scheme.endswith('pad'):
            nb, hi = max(nb, NPAD + 2), max(hi, 1.1*pad*NPAD)
        if scheme == 'lin':
            nb = max(nb, 2)
        if scheme == 'log':
            nb = max(nb, 2)
        e = expected_edges(scheme, lo, hi, nb, pad)
        p = dict(catalogue_type='none', statistic_type='modes'
                 if space == 'fourier' else 'pairs', measurement_dir='out',
                 boxsize_x=box[0], boxsize_y=box[1], boxsize_z=box[2],
                 ngrid_x=n[0], ngrid_y=n[1], ngrid_z=n[2], binning=scheme,
                 bin_min=lo, bin_max=hi, num_bins=nb, verbose=60,
                 output_tag=tag, ell1=0, ell2=0, ELL=0, progbar='false')
        c.params(alone=True, space=space, box=box, n=n, edges=e, tag=tag)
    else:
        r = req.Req(c, req.KINDS[rng.integers(len(req.KINDS))], lo=4, hi=8)
        space, box, n, e = r.space, r.box, r.n, r.edges
        from checks.C16 import program_files, write_files
        where, names, files, full = write_files(c, d, r)
        p = prog.settings(r, output_tag=tag,
                          **program_files(r, where, names, files))
        c.params(alone=False, tag=tag, **r.describe())
    p = {k: v for k, v in p.items() if v != ''}
    name = 'binned_vectors' + tag
    if rng.random() < .6 or not alone:
        p['save_binned_vectors'] = ['true', 'some_name', 'vec.txt'][
            rng.integers(3)]
        if p['save_binned_vectors'] != 'true':
            name = p['save_binned_vectors']
    prog.write_ini(os.path.join(d, 'p.ini'), p, rng)
    exe = os.environ['VERIF_EXE' if rng.random() < .7 else 'VERIF_EXESER']
    res = prog.run(exe, d, OMP_NUM_THREADS=int(rng.integers(1, 5)))
    key = 'program/' + space
    if not c.check(res.code == 0, key, 'exits with %d: %s'
                   % (res.code, res.text[-300:])):
        return
    path = os.path.join(d, 'out', name)
    if c.check(os.path.exists(path), key, 'no %s among %s'
               % (name, res.files())):
        head = [ln[1:].strip() for ln in open(path) if ln.startswith('#')]
        tab = np.loadtxt(path, ndmin=2)
        tab = tab.reshape(-1, 6)
        for start, want, tol in (('box size', box, 6e-4),
                                 ('mesh number', n, 0),
                                 ('vector count', [len(tab)], 0),
                                 ('bin number', [len(e) - 1], 0)):
            a = prog.header_numbers(head, start)
            c.check(a is not None and np.allclose(a, want, 0, tol), key,
                    '%s %s instead of %s' % (start, a, want))
        compare_vectors(c, key, list(tab.T), box, n, space, np.asarray(e),
                        False, 2e-9)
    shutil.rmtree(d)


def one(kind):
    return lambda c: counts(c, kind)


GROUPS = [Group('edges', edges, 400, 6000),
          Group('unusable', unusable, 240, 2400)] + [
    Group('counts-%s-%s' % k, one(k), 24, 300) for k in req.KINDS] + [
    Group('recorded', recorded, 160, 2000), Group('agree', agree, 60, 600),
    Group('program', program, 60, 600)]

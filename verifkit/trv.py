"""Case generators and drivers for the Python API under test."""
import numpy as np

from . import ref

SCHEMES = ('ngp', 'cic', 'tsc', 'pcs')
AXES = 'xyz'


def template(**kw):
    from triumvirate.parameters import fetch_paramset_template
    d = fetch_paramset_template('dict')
    d['verbose'] = 60
    d['progbar'] = False
    d['norm_convention'] = 'particle'
    d['form'] = 'diag'
    d['idx_bin'] = 0
    d['degrees'] = dict(ell1=0, ell2=0, ELL=0)
    d['wa_orders'] = dict(i=0, j=0)
    d['alignment'] = 'centre'
    d['use_fftw_wisdom'] = False
    d.update(kw)
    return d


def paramset(box, n_, stat, cattype, edges, binning='lin', **kw):
    from triumvirate.parameters import ParameterSet
    deg = kw.pop('degrees', (0, 0, 0))
    wa = kw.pop('wa', (0, 0))
    d = template(
        boxsize=dict(zip(AXES, map(float, box))),
        ngrid=dict(zip(AXES, map(int, n_))),
        catalogue_type=cattype, statistic_type=stat,
        degrees=dict(ell1=int(deg[0]), ell2=int(deg[1]), ELL=int(deg[2])),
        wa_orders=dict(i=int(wa[0]), j=int(wa[1])),
        binning=binning, range=[float(edges[0]), float(edges[-1])],
        num_bins=len(edges) - 1)
    d.update(kw)
    return ParameterSet(param_dict=d)


# -- geometry and catalogues ---------------------------------------------
def rand_grid(rng, lo=6, hi=12, equal=None, boxlo=600., boxhi=1500.):
    """Mesh numbers (mostly even) and a box, cubic or not."""
    if equal is None:
        equal = rng.random() < 0.3
    if equal:
        n = np.full(3, 2 * rng.integers(lo // 2, hi // 2 + 1))
        box = np.full(3, rng.uniform(boxlo, boxhi))
    else:
        n = 2 * rng.integers(lo // 2, hi // 2 + 1, 3)
        box = rng.uniform(boxlo, boxhi, 3)
    if rng.random() < 0.2:
        n = n + (rng.random(3) < 0.5)
    return np.round(box, 3), n


def clustered(rng, num, span):
    """Points with structure, so that no statistic is accidentally zero."""
    mode = rng.integers(3)
    if mode == 0:
        p = rng.random((num, 3))
    elif mode == 1:
        c = rng.random((max(1, num // 12), 3))
        p = c[rng.integers(len(c), size=num)] + rng.normal(
            0, 0.04, (num, 3))
    else:
        p = rng.beta(0.7, 1.6, (num, 3))
    p = np.where((p > 0.) & (p < 1.), p, rng.random((num, 3)))
    return p * span


def survey_cat(rng, num, span, origin, weights=None):
    """Columns of a survey catalogue spanning part of a box."""
    p = clustered(rng, num, span) + origin
    w = rng.integers(3) if weights is None else weights
    one = np.ones(num)
    ws = one if w == 0 else rng.uniform(0.5, 1.5, num)
    wc = one if w == 0 else rng.uniform(0.3, 1.2, num)
    if w == 2:    # a few objects of zero weight
        ws = np.where(rng.random(num) < 0.05, 0., ws)
    elif w == 1 and rng.random() < .25:    # of negative weight
        ws = np.where(rng.random(num) < 0.1, -ws, ws)
    nz = rng.uniform(0.5, 1.5, num) * 1e-4
    return dict(x=p[:, 0].copy(), y=p[:, 1].copy(), z=p[:, 2].copy(),
                nz=nz, ws=ws, wc=wc)


def make(cols, **kw):
    from triumvirate.catalogue import ParticleCatalogue
    return ParticleCatalogue(**{k: np.array(v) for k, v in cols.items()},
                             **kw)


def xyz(cols):
    return np.stack([cols['x'], cols['y'], cols['z']], -1)


def unit(v):
    return v / np.sqrt((v**2).sum(-1))[:, None]


def wstotal(cols):
    return float(np.sum(cols['ws']))


def place(cols_list, box, ngrid, align):
    """Positions after alignment in the box; the last catalogue is the
    reference.  `align`: ('centre',), ('pad', 'box'|'grid', factor)."""
    p = xyz(cols_list[-1])
    lo, hi = p.min(0), p.max(0)
    if align[0] == 'centre':
        origin = (lo + hi) / 2. - np.asarray(box) / 2.
    elif align[1] == 'box':
        origin = lo - align[2] * np.asarray(box)
    else:
        origin = lo - align[2] * np.asarray(box) / np.asarray(ngrid)
    return [xyz(c) - origin for c in cols_list]


def periodise(cols, box):
    """Box placement: extents centred in the periodic box."""
    p = xyz(cols)
    return (p + np.asarray(box)/2. - (p.min(0) + p.max(0))/2.) % box


def refcat(cols, pos, los=None):
    return ref.Cat(pos, cols['nz'], cols['ws'], cols['wc'], los)


def align_params(align):
    if align[0] == 'centre':
        return dict(alignment='centre')
    return dict(alignment='pad', padscale=align[1], padfactor=align[2])


def rand_align(rng):
    u = rng.random()
    if u < 0.5:
        return ('centre',)
    if u < 0.75:
        return ('pad', 'box', float(rng.uniform(0.02, 0.1)))
    return ('pad', 'grid', float(rng.uniform(0.2, 1.5)))


def norm_mixed(D, R, align, alpha, padding=.1, cell=10., scheme='cic'):
    """Mixed-mesh two-point normalisation (documented pypower defaults)."""
    span = max(np.ptp(xyz(D), axis=0).max(), np.ptp(xyz(R), axis=0).max())
    n = int(np.ceil((1. + padding)*span/cell))
    n += n % 2
    box, n3 = np.full(3, cell*n), np.full(3, n)
    qd, qr = place([D, R], box, n3, align)
    md = ref.deposit(qd, D['ws']*D['wc'], box, n3, scheme).real
    mr = ref.deposit(qr, R['ws']*R['wc'], box, n3, scheme).real
    with np.errstate(divide='ignore'):
        return float(1. / (alpha * cell**3 * (md*mr).sum()))


# -- bins ----------------------------------------------------------------
def mode_coords(box, ngrid, space):
    g = ref.Grid(box, ngrid, 'ngp')
    x = np.unique(np.round((g.k if space == 'fourier' else g.r).ravel(), 9))
    return x


def rand_edges(rng, box, ngrid, space, npt, scheme=None, nmin=2, nmax=6,
               empty=False):
    """Edges no closer to a mode than the resolution of the bin search.

    Returns (scheme, edges, centres) of a `lin` or `log` binning whose bins
    all hold modes.
    """
    x = mode_coords(box, ngrid, space)
    if space == 'fourier':
        res = 2.5e-5
        lo_hi = (2*np.pi/max(box)*0.6, x[-1]*0.9)
    else:
        res = 0.12 if npt == 2 else 1.1
        lo_hi = (min(np.asarray(box)/ngrid)*0.4, x[-1]*0.9)
    for t in range(20000):
        sch = scheme or ('lin' if rng.random() < 0.7 else 'log')
        nb = int(rng.integers(nmin, nmax + 1))
        lo = rng.uniform(lo_hi[0], lo_hi[0]*2.2)
        hi = rng.uniform(min(lo*1.8, lo_hi[1]*0.8), lo_hi[1])
        if t > 3000:
            nb = min(nb, 3)
        if t > 8000:
            nb = 2
        if space == 'config' or rng.random() < 0.5:
            lo, hi = float('%.4g' % lo), float('%.4g' % hi)
        if hi <= lo:
            continue
        if sch == 'lin' and rng.random() < .15:
            lo = 0.         # with the zero mode or separation
        if rng.random() < .1:
            hi = x[-1] * rng.uniform(1.001, 1.1)    # with the very last
        if sch == 'lin':
            e = lo + (hi - lo)/nb*np.arange(nb + 1)
            cen = (e[:-1] + e[1:]) / 2.
        else:
            dl = (np.log(hi) - np.log(lo)) / nb
            e = lo*np.exp(dl*np.arange(nb + 1))
            cen = (e[:-1] + e[1:]) / 2.
        j = np.searchsorted(x, e)
        d = np.minimum(np.abs(x[np.minimum(j, len(x)-1)] - e),
                       np.abs(x[np.maximum(j-1, 0)] - e))
        d = d[1:] if lo == 0. else d
        if d.min() < res:
            continue
        if (np.diff(np.searchsorted(x, e)) <= 0).any() != empty:
            continue
        return sch, e, cen
    raise RuntimeError('no unambiguous bins found')


DEG3 = [(0, 0, 0), (1, 1, 0), (2, 2, 0), (0, 2, 2), (2, 0, 2), (1, 1, 2),
        (2, 2, 2), (1, 3, 2), (0, 1, 1), (1, 0, 1), (1, 2, 1), (3, 3, 0),
        (2, 4, 2), (0, 4, 4), (4, 0, 4)]
HIGH3 = [(4, 4, 0), (5, 5, 0), (6, 6, 0), (3, 5, 2), (6, 4, 2), (0, 6, 6),
         (2, 5, 3), (4, 4, 4)]

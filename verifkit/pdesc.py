"""Random parameter descriptions, their file forms and expected meaning.

Independent of the code under test: defaults, restrictions and derivations
are those of the documented parameter templates.
"""
import math

DEFAULTS = dict(
    expand=1., alignment='centre', padscale='box', padfactor=None,
    assignment='tsc', interlace=False, form='diag',
    norm_convention='particle', binning='lin', fftw_scheme='measure',
    use_fftw_wisdom=False, save_binned_vectors=False, verbose=20,
    progbar=False)
ORDER = {'ngp': 1, 'cic': 2, 'tsc': 3, 'pcs': 4}
PLANNER = {'estimate': 64, 'measure': 0, 'patient': 32}
COMBOS = [(s, c) for s in ('powspec', '2pcf', 'bispec', '3pcf')
          for c in ('survey', 'sim')] + \
         [(s, 'random') for s in ('2pcf-win', '3pcf-win', '3pcf-win-wa')]
MESHONLY = [(s, c) for s in ('modes', 'pairs')
            for c in ('survey', 'sim', 'random', 'none')]
BINNINGS = ['lin', 'log', 'linpad', 'logpad', 'custom']
FORMS = ['full', 'diag', 'off-diag', 'row']


def npoint(stat):
    if stat in ('modes', 'pairs'):
        return 'none'
    return '2pt' if stat in ('powspec', '2pcf', '2pcf-win') else '3pt'


def space(stat):
    return 'fourier' if stat in ('powspec', 'bispec', 'modes') else 'config'


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def num(rng, lo, hi):
    """A float, sometimes awkward to print."""
    u = rng.random()
    v = float(rng.uniform(lo, hi))
    if u < .3:
        return round(v, 2)
    if u < .4:
        return float(max(1, round(v)))
    return v


def random(rng, mesh_only=False, exotic=True):
    """A valid description."""
    stat, cat = pick(rng, COMBOS + (MESHONLY if mesh_only else []))
    d = dict(statistic_type=stat, catalogue_type=cat)
    u = rng.random()
    scale = 10.**rng.uniform(-3, 6) if exotic and rng.random() < .2 else 1e3
    d['boxsize'] = None if u < .2 else [
        scale * num(rng, .5, 2.) for _ in range(3)]
    d['ngrid'] = None if rng.random() < .25 else [
        int(x) for x in rng.integers(1, 300, 3)]
    d['cutoff_nyq'] = None
    if d['ngrid'] is None or rng.random() < .2:
        if d['boxsize'] is None:
            d['cutoff_nyq'] = num(rng, .05, 40.)
        else:
            n = rng.uniform(1, 90)
            d['cutoff_nyq'] = float(
                n*math.pi/max(d['boxsize']) if space(stat) == 'fourier'
                else 2.*max(d['boxsize'])/n)
    d['expand'] = float(pick(rng, [1., 1.05, 1.25, num(rng, 1., 3.)]))
    d['alignment'] = pick(rng, ['centre', 'pad'])
    d['padscale'] = pick(rng, ['box', 'grid'])
    d['padfactor'] = None
    if rng.random() < .6:
        hi = 1. if d['padscale'] == 'box' else float(
            min(d['ngrid']) if d['ngrid'] else 2)
        d['padfactor'] = float(pick(rng, [0., hi * rng.uniform(0, .999)]))
    d['assignment'] = pick(rng, list(ORDER))
    d['interlace'] = bool(rng.random() < .5)
    d['degrees'] = [int(x) for x in rng.integers(0, 5, 3)]
    d['wa_orders'] = [int(x) for x in rng.integers(0, 3, 2)] \
        if stat.startswith('3pcf-win') and rng.random() < .5 else [0, 0]
    d['form'] = pick(rng, FORMS)
    convs = ['none', 'particle', 'mesh']
    if npoint(stat) == '2pt' and cat == 'survey':
        convs.append('mesh-mixed')
    d['norm_convention'] = pick(rng, convs)
    d['binning'] = pick(rng, BINNINGS)
    lo = num(rng, 1e-3, 50.)
    if rng.random() < .1 and d['binning'] in ('lin', 'linpad', 'custom'):
        lo = 0.
    d['range'] = [lo, lo + num(rng, 1e-3, 200.)]
    d['num_bins'] = int(rng.integers(
        7 if d['binning'] in ('linpad', 'logpad') else 2, 40))
    nb = d['num_bins']
    d['idx_bin'] = int(rng.integers(0, nb)) if d['form'] == 'row' \
        else int(rng.integers(-nb + 1, nb)) if d['form'] == 'off-diag' \
        else pick(rng, [None, 0, int(rng.integers(0, nb))])
    d['fftw_scheme'] = pick(rng, list(PLANNER))
    d['use_fftw_wisdom'] = False
    if d['fftw_scheme'] != 'estimate' and rng.random() < .3:
        d['use_fftw_wisdom'] = pick(rng, [
            '/tmp/Wis-Dom', 'storage/W', './Path_X/', 'a'])
    d['verbose'] = 60
    d['progbar'] = pick(rng, [False, True, 5, 12.5, 99, .25])
    d['save_binned_vectors'] = False
    d['dirs'] = [pick(rng, ['', 'cat/', 'Data/In', '/abs/dir',
                            '${VK_DIR}/x/', 'a/${VK_ABSENT}/b']),
                 pick(rng, ['', 'out', 'Meas/Out_1/', '/abs/out',
                            '${VK_DIR}/${VK_DIR}', 'o-${VK_DIR}'])]
    d['files'] = ['', '']
    if cat in ('survey', 'sim'):
        d['files'][0] = pick(rng, ['data.dat', 'uniform.txt', 'D-1.x.cat',
                                   '/abs/data.txt', 'a.dat::B/b.dat',
                                   'one::/abs/two::cat/three.x'])
    if cat in ('survey', 'random'):
        d['files'][1] = pick(rng, ['rand.dat', 'Rnd_A', '/abs/r.txt'])
    d['columns'] = pick(rng, [['x', 'y', 'z', 'nz'],
                              ['x', 'y', 'z', 'nz', 'ws', 'wc'],
                              ['nz', 'z', 'ws', 'x', 'y']])
    d['tag'] = pick(rng, ['', '_Tag1', '_run-2.5', '-x'])
    return d


# -- restrictions --------------------------------------------------------
INVALID = {}    # name -> (function of (rng, d) -> d or None, program too?)


def bad(program=True, python=True):
    def deco(f):
        INVALID[f.__name__] = (f, python, program)
        return f
    return deco


def _set(d, **kw):
    d.update(kw)
    return d


@bad()
def alignment(rng, d):
    return _set(d, alignment=pick(rng, ['center', 'padded', 'none']))


@bad()
def padscale(rng, d):
    if d['alignment'] != 'pad':
        return None
    return _set(d, padscale=pick(rng, ['mesh', 'cell', 'boxes']))


@bad()
def assignment(rng, d):
    return _set(d, assignment=pick(rng, ['ngc', 'tcs', 'pc', 'nearest']))


@bad()
def interlace(rng, d):
    return _set(d, interlace=pick(rng, ['yes', 'maybe', '2']))


@bad()
def form(rng, d):
    return _set(d, form=pick(rng, ['triu', 'diagonal', 'offdiag', 'rows']))


@bad()
def convention(rng, d):
    return _set(d, norm_convention=pick(rng, ['particles', 'mixed', 'box']))


@bad()
def binning(rng, d):
    return _set(d, binning=pick(rng, ['linear', 'log10', 'pad', 'user']))


@bad()
def scheme(rng, d):
    return _set(d, fftw_scheme=pick(rng, ['exhaustive', 'measured', 'fast']))


@bad()
def combination(rng, d):
    if npoint(d['statistic_type']) == 'none':
        return None
    d['norm_convention'] = 'particle'
    if d['statistic_type'] in ('powspec', '2pcf', 'bispec', '3pcf'):
        return _set(d, catalogue_type=pick(rng, ['random', 'none']))
    return _set(d, catalogue_type=pick(rng, ['survey', 'sim', 'none']))


@bad(python=False)
def statistic(rng, d):
    return _set(d, statistic_type=pick(rng, ['pk', '4pcf', 'bispectrum']),
                norm_convention='particle')


@bad(python=False)
def catalogue(rng, d):
    return _set(d, catalogue_type=pick(rng, ['box', 'randoms', 'data']))


@bad()
def mixed(rng, d):
    if npoint(d['statistic_type']) == '2pt' \
            and d['catalogue_type'] == 'survey':
        return None
    return _set(d, norm_convention='mesh-mixed')


@bad()
def wisdom(rng, d):
    return _set(d, use_fftw_wisdom='/tmp/w', fftw_scheme='estimate')


@bad()
def box_negative(rng, d):
    if d['boxsize'] is None:
        return None
    b = list(d['boxsize'])
    b[int(rng.integers(3))] *= -1.
    return _set(d, boxsize=b)


@bad()
def box_two_negative(rng, d):
    if d['boxsize'] is None:
        return None
    b, k = list(d['boxsize']), int(rng.integers(3))
    b = [x if i == k else -x for i, x in enumerate(b)]
    return _set(d, boxsize=b)


@bad()
def box_not_finite(rng, d):
    if d['boxsize'] is None:
        return None
    b = list(d['boxsize'])
    b[int(rng.integers(3))] = pick(rng, [math.nan, math.inf])
    return _set(d, boxsize=b)


@bad(program=False)
def box_zero(rng, d):
    if d['boxsize'] is None:
        return None
    b = list(d['boxsize'])
    b[int(rng.integers(3))] = 0.
    return _set(d, boxsize=b)


@bad()
def ngrid_negative(rng, d):
    if d['ngrid'] is None:
        return None
    b = list(d['ngrid'])
    b[int(rng.integers(3))] *= -1
    return _set(d, ngrid=b)


@bad(program=False)
def ngrid_zero(rng, d):
    if d['ngrid'] is None:
        return None
    b = list(d['ngrid'])
    b[int(rng.integers(3))] = 0
    return _set(d, ngrid=b)


@bad()
def ngrid_fraction(rng, d):
    if d['ngrid'] is None:
        return None
    b = list(d['ngrid'])
    b[int(rng.integers(3))] += .5
    return _set(d, ngrid=b)


@bad()
def expand(rng, d):
    if d['boxsize'] is not None:
        return None
    return _set(d, expand=pick(rng, [.5, 0., -1.2, math.nan, math.inf]))


@bad()
def cutoff(rng, d):
    if d['ngrid'] is not None:
        return None
    return _set(d, cutoff_nyq=pick(rng, [None, 0., -.3, math.nan, math.inf]))


@bad()
def padfactor_negative(rng, d):
    if d['alignment'] != 'pad':
        return None
    return _set(d, padfactor=pick(rng, [-.1, -3., math.nan]))


@bad()
def padfactor_large(rng, d):
    if d['alignment'] != 'pad':
        return None
    if d['padscale'] == 'box':
        return _set(d, padfactor=pick(rng, [1., 1.5, 40.]))
    if d['ngrid'] is None:
        return None
    return _set(d, padfactor=float(min(d['ngrid'])
                                   + pick(rng, [0., .5, 3.])))


@bad()
def range_negative(rng, d):
    return _set(d, range=[-abs(d['range'][0]) - .01, d['range'][1]])


@bad()
def range_reversed(rng, d):
    a, b = d['range']
    return _set(d, range=[b, a] if rng.random() < .7 else [b, b])


@bad()
def range_not_finite(rng, d):
    a, b = d['range']
    return _set(d, range=pick(rng, [[math.nan, b], [a, math.nan],
                                    [a, math.inf]]))


@bad(program=False)
def range_unset(rng, d):
    a, b = d['range']
    return _set(d, range=pick(rng, [None, [None, b], [a, None]]))


@bad()
def num_bins(rng, d):
    return _set(d, num_bins=pick(rng, [1, 0, -4]), idx_bin=0, form='diag')


@bad()
def num_bins_fraction(rng, d):
    return _set(d, num_bins=d['num_bins'] + .5)


@bad(program=False)
def num_bins_unset(rng, d):
    return _set(d, num_bins=None)


@bad()
def idx_bin(rng, d):
    if npoint(d['statistic_type']) != '3pt':
        return None
    return _set(d, form=pick(rng, ['off-diag', 'row']),
                idx_bin=d['num_bins'] + int(rng.integers(0, 3)))


@bad()
def idx_bin_low(rng, d):
    if npoint(d['statistic_type']) != '3pt':
        return None
    return _set(d, form='off-diag',
                idx_bin=-d['num_bins'] - int(rng.integers(0, 3)))


@bad()
def idx_bin_row(rng, d):
    if npoint(d['statistic_type']) != '3pt':
        return None
    return _set(d, form='row', idx_bin=-1)


@bad(program=False)
def idx_bin_unset(rng, d):
    return _set(d, form=pick(rng, ['off-diag', 'row']), idx_bin=None)


@bad()
def degrees(rng, d):
    b = list(d['degrees'])
    b[int(rng.integers(3))] = pick(rng, [-1, -2])
    return _set(d, degrees=b)


@bad()
def degrees_fraction(rng, d):
    b = list(d['degrees'])
    b[int(rng.integers(3))] = pick(rng, [.5, 1.25])
    return _set(d, degrees=b)


@bad()
def progbar(rng, d):
    return _set(d, progbar=pick(rng, [0, 100, -5, 250., 'abc', '5x', 'nan']))


def mutate(rng, d, python):
    """An invalid description with exactly one broken restriction."""
    names = sorted(k for k, (f, py, pr) in INVALID.items()
                   if (py if python else pr))
    while True:
        name = pick(rng, names)
        out = INVALID[name][0](rng, {k: v for k, v in d.items()})
        if out is not None:
            return name, out


# -- file forms ----------------------------------------------------------
CASED = ('alignment', 'padscale', 'assignment', 'catalogue_type',
         'statistic_type', 'form', 'norm_convention', 'binning')


def recase(rng, s):
    if rng is None or not isinstance(s, str):
        return s
    u = rng.random()
    return s if u < .6 else s.upper() if u < .8 else s.capitalize()


def to_dict(d, rng=None, omit=True):
    """The nested dictionary given to `ParameterSet`."""
    out = dict(
        directories=dict(catalogues=d['dirs'][0] or None,
                         measurements=d['dirs'][1] or None),
        files=dict(data_catalogue=d['files'][0] or None,
                   rand_catalogue=d['files'][1] or None),
        catalogue_columns=list(d['columns']), catalogue_dataset=None,
        tags=dict(output=d['tag'] or None),
        boxsize=dict(zip('xyz', d['boxsize'] or [None]*3)),
        ngrid=dict(zip('xyz', d['ngrid'] or [None]*3)),
        cutoff_nyq=d['cutoff_nyq'],
        degrees=dict(zip(('ell1', 'ell2', 'ELL'), d['degrees'])),
        wa_orders=dict(zip('ij', d['wa_orders'])),
        range=None if d['range'] is None else list(d['range']),
        num_bins=d['num_bins'], idx_bin=d['idx_bin'])
    for k in CASED:
        out[k] = recase(rng, d[k])
    for k in ('expand', 'padfactor', 'interlace', 'fftw_scheme',
              'use_fftw_wisdom', 'verbose', 'progbar',
              'save_binned_vectors'):
        out[k] = d[k]
    if rng is not None:
        if isinstance(out['interlace'], bool) and rng.random() < .3:
            out['interlace'] = 'on' if out['interlace'] else 'off'
        if isinstance(out['progbar'], bool) and rng.random() < .3:
            out['progbar'] = 'on' if out['progbar'] else 'off'
        if d['ngrid'] is not None and rng.random() < .2:
            out['ngrid'] = {k: v if v is None else float(v)
                            for k, v in out['ngrid'].items()}
        for k, v in DEFAULTS.items():
            if omit and same(d[k], v) and k != 'verbose' \
                    and rng.random() < .5:
                if rng.random() < .5:
                    del out[k]
                else:
                    out[k] = None
    return out


def same(a, b):
    return a == b and isinstance(a, bool) == isinstance(b, bool)


def fmt(rng, v):
    if isinstance(v, float):
        if v != v or v in (math.inf, -math.inf):
            return repr(v)
        if rng is not None and rng.random() < .2:
            return '%.17e' % v
        return repr(v)
    return str(v)


def to_ini(d, rng=None, omit=True):
    """The text of a parameter file of the program."""
    rows = [('catalogue_dir', d['dirs'][0]),
            ('measurement_dir', d['dirs'][1]),
            ('data_catalogue_file', d['files'][0]),
            ('rand_catalogue_file', d['files'][1]),
            ('catalogue_columns', ','.join(d['columns'])),
            ('output_tag', d['tag'])]
    for k in ('boxsize', 'ngrid'):
        if d[k] is not None:
            rows += [('%s_%s' % (k, a), fmt(rng, v))
                     for a, v in zip('xyz', d[k])]
        elif rng is not None and rng.random() < .5:
            rows += [('%s_%s' % (k, a), '0') for a in 'xyz']
    for k in ('alignment', 'padscale', 'assignment', 'catalogue_type',
              'statistic_type', 'form', 'norm_convention', 'binning',
              'fftw_scheme'):
        rows.append((k, d[k]))
    for k in ('interlace', 'use_fftw_wisdom', 'save_binned_vectors',
              'progbar'):
        v = d[k]
        rows.append((k, {True: 'true', False: 'false'}[v]
                     if isinstance(v, bool) else fmt(None, v)))
    for k in ('expand', 'padfactor', 'cutoff_nyq', 'num_bins', 'idx_bin'):
        if d[k] is not None:
            rows.append((k, fmt(rng, d[k])))
    rows += list(zip(('ell1', 'ell2', 'ELL'),
                     (fmt(None, v) for v in d['degrees'])))
    rows += list(zip(('i_wa', 'j_wa'), (str(v) for v in d['wa_orders'])))
    rows += [('bin_min', fmt(rng, d['range'][0])),
             ('bin_max', fmt(rng, d['range'][1])),
             ('verbose', str(d['verbose']))]
    rows = [(k, v) for k, v in rows if v != '']
    if rng is not None and omit:
        rows = [(k, v) for k, v in rows
                if not (k in DEFAULTS and k != 'verbose'
                        and same(DEFAULTS[k], d[k]) and rng.random() < .5)]
        order = rng.permutation(len(rows))
        rows = [rows[i] for i in order]
    text = []
    for k, v in rows:
        if rng is not None and rng.random() < .1:
            text.append(pick(rng, ['# %s = 7' % k, '', '#', 'note only']))
        text.append('%s = %s' % (k, v) if rng is None or rng.random() < .8
                    else '  %s   =   %s   # as %s = 3' % (k, v, k))
    return '\n'.join(text) + '\n'


ENV = {'VK_DIR': 'Env.dir/e'}


def expand(path):
    return path.replace('${VK_DIR}', ENV['VK_DIR'])


def full_paths(d):
    """Directories and files as the program uses them."""
    cat, out = [expand(x) for x in d['dirs']]
    cat = cat if not cat or cat.endswith('/') else cat + '/'
    out = out if out.endswith('/') else (out or '.') + '/'
    files = ['::'.join(expand(f) if f.startswith('/') else cat + expand(f)
                       for f in x.split('::')) if x else ''
             for x in d['files']]
    return cat, out, files


# -- meaning -------------------------------------------------------------
def mesh_from_cutoff(d):
    """Mesh numbers resolving the cutoff: the smallest even numbers (two
    adjacent ones are allowed where rounding decides)."""
    out = []
    for L in d['boxsize']:
        x = L*d['cutoff_nyq']/math.pi if space(d['statistic_type']) == \
            'fourier' else 2.*L/d['cutoff_nyq']
        ok = set()
        for e in (1 - 1e-12, 1., 1 + 1e-12):
            n = math.ceil(x*e)
            ok.add(n + n % 2)
        out.append(ok)
    return out


def derived(d):
    """Expected derived values."""
    stat = d['statistic_type']
    np_ = npoint(stat)
    out = dict(npoint=np_, space=space(stat),
               assignment_order=ORDER[d['assignment']],
               volume=math.prod(d['boxsize']) if d['boxsize'] else 0.,
               interlace=d['interlace'] and np_ != '3pt',
               fftw_planner_flag=PLANNER[d['fftw_scheme']])
    w = d['use_fftw_wisdom']
    out['use_fftw_wisdom'] = w and w.rstrip('/') + '/'
    if d['ngrid'] is not None:
        out['ngrid'] = [{n} for n in d['ngrid']]
    elif d['boxsize'] is not None:
        out['ngrid'] = mesh_from_cutoff(d)
    else:
        out['ngrid'] = None
    return out

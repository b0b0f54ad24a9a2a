"""Explicit arguments of a measurement and its parameter set."""
import copy
import os
import tempfile
import warnings

import numpy as np

from verifkit import auto, est, prog, req, trv
from verifkit.worker import Group

RULE = ('Random measurements of every statistic and catalogue type, '
        'requested with a parameter set (object or dictionary) in which a '
        'random part of the entries is wrong and the right values are given '
        'as separate arguments, or with arguments alone; results, headers '
        'and the parameter set afterwards are compared with the request '
        'stated by a complete parameter set; and requests that are '
        'incomplete or contradictory; distinct by all of these.')
ASSUMPTIONS = ['a parameter set object given with overriding arguments takes '
               'on their values']



def prepare(build):
    return {'VERIF_EXE': build.exe()}


OTHER = ['powspec', '2pcf', '2pcf-win', 'bispec', '3pcf', '3pcf-win',
         '3pcf-win-wa']


def parts(r):
    p = ['boxsize', 'ngrid', 'assignment', 'degrees', 'binning']
    if r.npt == 2:
        p.append('interlace')
    else:
        p.append('form')
    if r.align:
        p.append('alignment')
    return p


def spoil(rng, r, d, part):
    """Wrong entries of a parameter set, valid all the same."""
    if part == 'boxsize':
        f = rng.uniform(.5, 1.7, 3)
        d['boxsize'] = dict(zip('xyz', (f*r.box).tolist()))
        if rng.random() < .3:
            d['boxsize'] = dict(x=None, y=None, z=None)
            d['expand'] = float(rng.uniform(1.1, 2.))
    elif part == 'ngrid':
        d['ngrid'] = dict(zip('xyz', (int(v) for v in rng.integers(
            3, 9, 3))))
    elif part == 'assignment':
        d['assignment'] = [s for s in trv.SCHEMES if s != r.scheme][
            rng.integers(3)]
    elif part == 'interlace':
        d['interlace'] = not r.il
    elif part == 'degrees':
        a, b, e = r.deg
        d['degrees'] = dict(ell1=a, ell2=b, ELL=e + int(rng.integers(1, 4))) \
            if r.npt == 2 else dict(zip(
                ('ell1', 'ell2', 'ELL'), [q for q in trv.DEG3 if q != r.deg][
                    rng.integers(len(trv.DEG3) - 1)]))
    elif part == 'binning':
        a, b = r.edges[0], r.edges[-1]
        a = a or b*.05
        n = len(r.cen) + int(rng.integers(0, 4))
        d['range'] = [float(a + .1*(b - a)), float(b*rng.uniform(.8, 1.5))]
        if rng.random() < .2:
            d['range'] = tuple(d['range'])
        d['num_bins'] = n
        d['binning'] = ['lin', 'log'][rng.integers(2)]
    elif part == 'form':
        d['form'] = [f for f in ('diag', 'off-diag', 'row', 'full')
                     if f != r.form][rng.integers(3)]
        d['idx_bin'] = int(rng.integers(0, len(r.cen)))
    elif part == 'alignment':
        if r.align[0] == 'centre' or rng.random() < .5:
            d['alignment'] = 'pad' if r.align[0] == 'centre' else 'centre'
        d['padscale'] = ['box', 'grid'][rng.integers(2)]
        d['padfactor'] = float(rng.uniform(.01, .3))


def right(rng, r, some):
    """The right values as arguments."""
    kw, sp = {}, {}
    seq = [list, tuple, np.array][rng.integers(3)]
    if 'boxsize' in some:
        sp['boxsize'] = seq([float(v) for v in r.box])
    if 'ngrid' in some:
        sp['ngrid'] = seq([int(v) for v in r.n])
    if 'assignment' in some:
        sp['assignment'] = r.scheme.upper() if rng.random() < .3 \
            else r.scheme
    if 'interlace' in some:
        sp['interlace'] = r.il
    if 'alignment' in some:
        sp['alignment'] = r.align[0]
        if r.align[0] == 'pad':
            sp[r.align[1] + 'pad'] = r.align[2]
    if sp:
        kw['sampling_params'] = sp
    if 'degrees' in some:
        if r.npt == 2:
            kw['degree'] = r.deg[2]
        else:
            kw['degrees'] = ['%d%d%d' % r.deg, r.deg, list(r.deg)][
                rng.integers(3)]
    if 'binning' in some:
        kw['binning'] = b = r.binning()
        if rng.random() < .2:
            b.set_custom_bins(r.edges)
    if 'form' in some:
        kw['form'], kw['idx_bin'] = r.form, r.idx
    return kw


def plain(v):
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple, np.ndarray)):
        return [plain(x) for x in v]
    return v


def overrides(c, kind):
    from triumvirate.parameters import ParameterSet
    rng = c.rng
    r = req.Req(c, kind)
    key = '%s-%s' % kind
    ps = parts(r)
    some = [p for p in ps if rng.random() < .4] or [ps[
        rng.integers(len(ps))]]
    d = copy.deepcopy(dict(r.paramset().items()))
    # The number of bins is kept at least, so a bin index stays valid.
    for p in some:
        spoil(rng, r, d, p)
    if 'binning' in some and 'form' not in some and r.form in (
            'row', 'off-diag'):
        d['num_bins'] = max(d['num_bins'], len(r.cen))
    if rng.random() < .6:
        d['statistic_type'] = [s for s in OTHER if (s[0] in 'pb')
                               == r.fourier and ('win' in s) == (
                                   'win' in r.stat) and (
                                   s in ('powspec', '2pcf', '2pcf-win'))
                               == (r.npt == 2)][0]
    if rng.random() < .6:
        d['catalogue_type'] = r.cat if d.get(
            'norm_convention') == 'mesh-mixed' or 'win' in r.stat else [
                'survey', 'sim'][rng.integers(2)]
    if r.wa is not None and rng.random() < .6:
        d['wa_orders'] = dict(i=int(rng.integers(0, 3)),
                              j=int(rng.integers(0, 3)))
    out = tempfile.mkdtemp(dir=c.scratch)
    d['directories'] = dict(d['directories'], measurements=out)
    d['tags'] = dict(d.get('tags') or {}, output='_t%d' % rng.integers(9))
    obj = bool(rng.random() < .6)
    c.params(wrong=some, object=obj, given={
        k: d[k] for k in ('statistic_type', 'catalogue_type', 'range')},
        **r.describe())
    want = r.run()
    base = ParameterSet(param_dict=copy.deepcopy(d)) if obj \
        else copy.deepcopy(d)
    kw = right(rng, r, some)
    got = r.run(paramset=base, save='.txt', **kw)
    req.same(c, r, got, want, 'result/' + key, 1e-9, 1e-11,
             '%s as arguments' % some)
    f = os.listdir(out)
    if c.check(len(f) == 1 and f[0].endswith(
            d['tags']['output'] + '.txt'), 'file/' + key,
            'files saved: %s' % f):
        head = [ln.lstrip('# ').strip() for ln in open(
            os.path.join(out, f[0])) if ln.startswith('#')]
        b = prog.header_numbers(head, 'box size')
        n = prog.header_numbers(head, 'mesh number')
        c.check(b is not None and np.allclose(b, r.box, rtol=1e-9, atol=6e-4)
                and n is not None and list(n) == list(r.n), 'file/' + key,
                'header of box %s and mesh %s' % (b, n))
        c.check(any(r.scheme in ln for ln in head if 'ssign' in ln),
                'file/' + key, 'header without scheme %s' % r.scheme)
    if not obj:
        c.check(base == d, 'kept/' + key, 'the given dictionary is changed')
        return
    full = r.paramset()
    for k in ('boxsize', 'ngrid', 'assignment', 'norm_convention',
              'statistic_type', 'binning', 'num_bins', 'range', 'degrees', 'form',
              'idx_bin', 'interlace', 'alignment'):
        if k == 'statistic_type':
            v = r.stat + ('-wa' if r.wa is not None else '')
        elif k in ('form', 'idx_bin') and r.npt == 2:
            continue
        elif k == 'alignment' and not r.align:
            continue
        elif k == 'binning' and 'binning' in kw:
            v = kw['binning'].scheme
        else:
            v = full[k]
        g = base[k]
        if k == 'degrees' and r.npt == 2:
            v, g = v['ELL'], g['ELL']
        v, g = plain(v), plain(g)
        if k in ('range', 'boxsize'):
            v, g = (list(x.values()) if isinstance(x, dict) else x
                    for x in (v, g))
            ok = np.allclose(v, g, rtol=1e-12, atol=0)
        else:
            ok = v == g
        c.check(ok, 'entries/' + key, '%s is %s afterwards, not %s'
                % (k, g, v))
    c.check(base['tags'] == d['tags'] and base['verbose'] == d['verbose'],
            'entries/' + key, 'unrelated entries changed')
    if base['binning'] == 'custom':
        return
    # Used again without arguments, it means the same.
    req.same(c, r, r.run(paramset=base), want, 'again/' + key, 1e-9, 1e-11,
             'the same parameter set again')


def derived(c):
    from triumvirate.parameters import ParameterSet
    rng = c.rng
    a = auto.Auto(c, req.KINDS[rng.integers(len(req.KINDS))])
    r = a.r
    key = '%s-%s' % (r.stat, r.cat)
    want = r.run(over=a.over())
    bad, sp = {}, {}
    if a.what != 'mesh':
        sp['expand'] = a.expand
        bad['expand'] = float(a.expand*rng.uniform(1.2, 2.))
    if a.what != 'box':
        sp['cutoff_nyq'] = a.cut
        bad['cutoff_nyq'] = float(a.cut*rng.uniform(.5, 2.))
    if rng.random() < .5:       # one of them is right already
        for k in list(sp)[:int(rng.integers(0, len(sp)))]:
            sp.pop(k)
            bad.pop(k)
    # A parameter set object settles its mesh once its box is known.
    obj = a.what != 'mesh' and bool(rng.random() < .7)
    d = copy.deepcopy(dict(r.paramset(**dict(a.over(), **bad)).items()))
    d.update(a.over(), **bad)
    base = ParameterSet(param_dict=copy.deepcopy(d)) if obj \
        else copy.deepcopy(d)
    a.describe(c, wrong=list(bad), object=obj)
    got = r.run(paramset=base, sampling_params=sp)
    req.same(c, r, got, want, 'derived/' + key, 1e-9, 1e-11,
             '%s as arguments' % list(sp))
    if obj:
        c.check(all(base[k] == v for k, v in sp.items()), 'entries/' + key,
                'entries %s afterwards' % [base[k] for k in sp])
        req.same(c, r, r.run(paramset=base), want, 'again/' + key, 1e-9,
                 1e-11, 'the same parameter set again')
    else:
        c.check(base == d, 'kept/' + key,
                'the given dictionary is changed')


def incomplete(c):
    rng = c.rng
    r = req.Req(c, req.KINDS[rng.integers(len(req.KINDS))])
    r.conv = 'particle'
    r.norm = r.normalisation()
    kw, way = {}, ''
    while way != 'args':
        kw, way = est.api_kwargs(
            rng, r.box, r.n, r.stat, r.cat, r.bs, r.edges, r.deg,
            r.scheme, r.il, 'particle', r.align, r.form, r.idx, r.npt)
    need = list(kw)
    if r.npt == 3 and r.form in ('diag', 'full'):
        need.remove('idx_bin')
    drop = [k for k in need if rng.random() < .3]
    d = r.describe()
    c.params(without=drop, **d)
    key = '%s-%s' % (r.stat, r.cat)

    def call(**k):
        if r.wa is not None:
            k['wa_orders'] = r.wa
        return r.fn(*r.cats(), **r.losargs(), **k)

    k = {a: b for a, b in kw.items() if a not in drop}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if drop:
            c.raises(lambda: call(**k), ValueError, 'incomplete',
                     'a request without %s' % drop)
            c.raises(lambda: call(), ValueError, 'incomplete',
                     'a request of nothing')
        else:
            req.same(c, r, call(**k), r.run(), 'result/' + key, 1e-9, 1e-11,
                     'arguments alone')
        sp = kw['sampling_params']
        bad = [dict(assignment='spline'), dict(boxsize=[-1., 5., 5.]),
               dict(ngrid=[0, 4, 4]), dict(alignment='left'),
               dict(alignment='pad', boxpad=.1, gridpad=2.)][
                   rng.integers(5)]
        if r.cat == 'sim' and 'alignment' in bad:
            bad = dict(assignment='spline')
        c.raises(lambda: call(**dict(kw, sampling_params=dict(sp, **bad))),
                 ValueError, 'incomplete', 'a request with %s' % bad)
        if r.npt == 3:
            more = [dict(form='upper'), dict(form='row', idx_bin=99),
                    dict(degrees='12'), dict(degrees=(0, -1, 1)),
                    dict(form='off-diag', idx_bin=-99)][rng.integers(5)]
        else:
            more = dict(degree=-1)
        c.raises(lambda: call(**dict(kw, **more)), ValueError, 'incomplete',
                 'a request with %s' % more)
        ps = r.paramset()
        c.raises(lambda: call(paramset=ps, **more), ValueError,
                 'incomplete', 'a parameter set with %s' % more)


def environment(c):
    """Environment variables prevail over the program's parameter file."""
    rng = c.rng
    r = req.Req(c, req.KINDS[rng.integers(len(req.KINDS))], lo=4, hi=6)
    d = tempfile.mkdtemp(dir=c.scratch)
    names = ['x', 'y', 'z', 'nz', 'ws', 'wc']
    files = []
    for i, q in enumerate(r.cols):
        files.append('c%d.txt' % i)
        prog.write_catalogue(os.path.join(d, files[-1]), q, names)
    p = prog.settings(r, files[0] if r.cat != 'random' else None,
                      files[-1] if r.cat != 'sim' else None,
                      ','.join(names))
    if rng.random() < .5:
        p['save_binned_vectors'] = 'true'
    right = dict(output_tag='_x%d' % rng.integers(9),
                 fftw_scheme=['estimate', 'measure'][rng.integers(2)],
                 verbose=int(rng.choice([10, 20, 30, 60])),
                 progbar=['true', 'false', '20'][rng.integers(3)])
    wrong = dict(output_tag=['_wrong', None][rng.integers(2)],
                 fftw_scheme=['estimate', 'patient', None][rng.integers(3)],
                 verbose=int(rng.choice([0, 20, 50])),
                 progbar=['false', '10', None][rng.integers(3)])
    some = [k for k in right if rng.random() < .6]
    c.params(by_environment=some, right=right, wrong=wrong, **r.describe())
    got = []
    for sub, env in (('a', {}), ('b', {
            'TRV_OVERRIDE_' + k.upper(): right[k] for k in some})):
        q = dict(p, measurement_dir=sub, **right)
        if env:
            q.update({k: wrong[k] for k in some})
        prog.write_ini(os.path.join(d, sub + '.ini'), {
            k: v for k, v in q.items() if v is not None}, rng)
        os.makedirs(os.path.join(d, sub))
        res = prog.run(os.environ['VERIF_EXE'], d, sub + '.ini',
                       OMP_NUM_THREADS=1, **env)
        if not c.check(res.code == 0, 'environment/run', 'ended with %d'
                       % res.code, text=res.text[-1500:]):
            return
        out = {}
        for f in res.files(sub):
            with open(os.path.join(d, sub, f)) as fh:
                out[f] = [ln for ln in fh.read().splitlines()
                          if not ln.startswith('measurement_dir')]
        got.append((out, res.text))
    (a, ta), (b, tb) = got
    if not c.check(sorted(a) == sorted(b), 'environment/names',
                   'files %s instead of %s' % (sorted(b), sorted(a))):
        return
    # Transforms of another plan differ in rounding.
    for f in a:
        if f.startswith('parameters_used'):
            c.check(a[f] == b[f], 'environment/used', '%s differs: %s' % (
                f, sorted(set(a[f]) ^ set(b[f]))))
        elif f.startswith('binned_vectors'):
            c.check(sorted(a[f]) == sorted(b[f]), 'environment/vectors',
                    '%s differs' % f)
    f = prog.expected_name(r, right['output_tag'])
    if c.check(f in a, 'environment/names', '%s not among %s' % (f, list(a))):
        c.check([v for v in a[f] if v[0] == '#'] == [
            v for v in b[f] if v[0] == '#'], 'environment/header',
            'header of %s differs' % f)
        req.same(c, r, *[prog.read_table(os.path.join(d, s, f), r.stat)[0]
                         for s in 'ba'], 'environment/result', 1e-7, 1e-9,
                 '%s by environment' % some)
    # Messages of reading the parameters come before the overriding.
    early = 'verbose' in some and wrong['verbose'] < right['verbose']
    for kind in ('INFO', 'STAT'):
        x, y = ta.count(kind), tb.count(kind)
        c.check(y > 0 if x else early or y == 0, 'environment/verbosity',
                '%d lines of %s instead of %d' % (y, kind, x))


def one(f, kind):
    return lambda c: f(c, kind)


GROUPS = [Group('%s-%s' % k, one(overrides, k), 24, 300)
          for k in req.KINDS] + [
    Group('derived', derived, 100, 1000),
    Group('environment', environment, 80, 800), Group('incomplete', incomplete, 80, 800)]

"""Objects of the caller around every public call."""
import copy

import numpy as np

from verifkit import muted, req, trv, watch
from verifkit.worker import Group

RULE = ('Workloads (random measurements with shared objects and every kind '
        'of option, transforms, extrapolations, convolutions, catalogue '
        'operations, also rejected ones) run with every public function, '
        'constructor and method wrapped: all arguments are snapshotted '
        'before and compared after each call, as are results returned '
        'earlier; distinct by the parameters of the workload.')
ASSUMPTIONS = ['a measurement may set entries of a parameter set given to it '
               'which it is told to override or left to derive, positions of '
               'catalogues, and their number densities when absent']


def watched(c, run):
    seen = set()

    def report(key, msg):
        if (key, msg) not in seen:
            seen.add((key, msg))
            c.fail(key, msg)
    w = watch.Watch(report).install()
    try:
        run()
    finally:
        w.remove()
        c.n += w.objects
        c.count('public calls', w.calls)
        c.count('objects compared', w.objects)


def other(prop, group):
    return lambda c: watched(c, lambda: muted.run(c, prop, group))


def measure(c, kind):
    """Objects shared by several measurements, given in all ways."""
    rng = c.rng
    r = req.Req(c, kind)
    if r.conv == 'mesh-mixed' and rng.random() < .7:
        r.conv = 'particle'
    src = copy.deepcopy(r.cols)
    cats = r.cats(src)
    ps, b = r.paramset(), r.binning()
    los = [trv.unit(rng.normal(0, 1, (len(q['x']), 3))) for q in r.cols]
    sp = dict(assignment=trv.SCHEMES[rng.integers(4)],
              interlace=False)
    deg = list(r.deg)
    if rng.random() < .5:
        sp['boxsize'] = [float(v) for v in r.box]
    if rng.random() < .5:
        sp['ngrid'] = np.array(r.n)
    if r.align and rng.random() < .5:
        sp['alignment'] = r.align[0]
        if r.align[0] == 'pad':
            sp[r.align[1] + 'pad'] = r.align[2]
    plan = []
    for _ in range(4):
        kw = dict(paramset=ps)
        if rng.random() < .4:
            kw['binning'] = b
        if rng.random() < .4:
            kw['sampling_params'] = sp
        if rng.random() < .4:
            if r.npt == 2:
                kw['degree'] = int(rng.integers(0, 4))
            else:
                kw['degrees'] = tuple(deg)
        if r.npt == 3 and rng.random() < .4:
            kw['form'] = ['diag', 'full'][rng.integers(2)]
        if r.cat != 'sim' and rng.random() < .6:
            for i, n in enumerate(['los_data', 'los_rand'] if
                                  r.cat == 'survey' else ['los_rand']):
                kw[n] = los[i]
        if r.wa is not None:
            kw['wa_orders'] = tuple(r.wa)
        if rng.random() < .15:    # rejected
            if r.cat != 'sim' and 'los_rand' in kw:
                kw['los_rand'] = kw['los_rand'][:-1]
            else:
                kw['sampling_params'] = dict(assignment='nope')
        plan.append(kw)
    c.params(options=[sorted(k) for k in plan], sampling=sorted(sp),
             **r.describe())
    key = '%s-%s' % kind

    def run():
        for kw in plan:
            try:
                r.fn(*cats, **kw)
                c.count('measurements')
            except (ValueError, RuntimeError):
                c.count('rejected measurements')
    before = watch.snap(src)
    watched(c, run)
    c.check(watch.differ(before, watch.snap(src)) is None, 'source/' + key,
            'the arrays a catalogue was made from have changed')


def returned(c, kind):
    """What is returned is the caller's: overwriting it has no effect on
    later calls with the same objects."""
    r = req.Req(c, kind)
    if r.conv == 'mesh-mixed':
        r.conv = 'particle'
    ps, b = r.paramset(), r.binning()
    kw = dict(paramset=ps)
    if c.rng.random() < .6:
        kw['binning'] = b
    if r.wa is not None:
        kw['wa_orders'] = r.wa
    c.params(options=sorted(kw), **r.describe())
    key = '%s-%s' % kind
    got = r.fn(*r.cats(), **kw)
    want = copy.deepcopy(got)
    for v in got.values():
        if isinstance(v, np.ndarray):
            v[...] = -77
    again = r.fn(*r.cats(), **kw)
    req.same(c, r, again, want, 'returned/' + key)
    kept = copy.deepcopy(again)
    edges = list(b.bin_edges)
    b.set_custom_bins([.5*e for e in b.bin_edges])
    ps.update(num_bins=len(edges) + 3)
    c.check(req.exact(again, kept), 'returned/' + key,
            'a result follows its binning or parameters')
    c.count('measurements', 2)


def makers(c):
    """Constructors keep copies; templates are given fresh."""
    from triumvirate.dataobjs import Binning
    from triumvirate.parameters import (ParameterSet,
                                        fetch_paramset_template)
    from triumvirate.fieldmesh import record_binned_vectors
    rng = c.rng
    box, n = trv.rand_grid(rng)
    bs, e, cen = trv.rand_edges(rng, box, n, 'config', 2)
    d = trv.template(
        boxsize=dict(zip('xyz', map(float, box))),
        ngrid=dict(zip('xyz', map(int, n))), catalogue_type='survey',
        statistic_type='2pcf', binning=bs, range=[float(e[0]), float(e[-1])],
        num_bins=len(cen))
    for k in ('expand', 'verbose', 'progbar', 'idx_bin'):
        if rng.random() < .3:
            d[k] = None
    if rng.random() < .3:
        d['assignment'] = d['assignment'].upper()
    before = watch.snap(d)
    c.params(box=box, ngrid=n, edges=e, unset=[k for k in d
                                               if d[k] is None])
    ps = ParameterSet(param_dict=d)
    c.check(watch.differ(before, watch.snap(d)) is None, 'dictionary',
            'the dictionary of a parameter set was changed at %s'
            % watch.differ(before, watch.snap(d)))
    state = watch.snap(ps)
    d['boxsize']['x'] = -1.
    d['range'][0] = -5.
    d['degrees']['ELL'] = 17
    d['tags']['output'] = 'changed'
    c.check(watch.differ(state, watch.snap(ps)) is None, 'dictionary',
            'a parameter set follows the dictionary it was made from, at %s'
            % watch.differ(state, watch.snap(ps)))
    upd = dict(boxsize=dict(x=500., y=600., z=700.), range=[10., 90.])
    before = watch.snap(upd)
    ps.update(upd)
    c.check(watch.differ(before, watch.snap(upd)) is None, 'dictionary',
            'the dictionary of an update was changed')
    state = watch.snap(ps)
    upd['boxsize']['y'], upd['range'][1] = -2., 3.
    c.check(watch.differ(state, watch.snap(ps)) is None, 'dictionary',
            'a parameter set follows the dictionary of an update')
    b = Binning.from_parameter_set(ps)
    c.check(watch.differ(state, watch.snap(ps)) is None, 'binning',
            'making a binning changed the parameter set')
    a = np.array(e) if rng.random() < .5 else [float(v) for v in e]
    before = watch.snap(a)
    b.set_custom_bins(a)
    kept = watch.snap(b)
    c.check(watch.differ(before, watch.snap(a)) is None, 'binning',
            'given bin edges were changed')
    a[0] = a[0]*.5
    c.check(watch.differ(kept, watch.snap(b)) is None, 'binning',
            'a binning follows the array of its edges')
    before = watch.snap(ps), watch.snap(b)
    v = record_binned_vectors(b, ps)
    c.check(watch.differ(before[0], watch.snap(ps)) is None
            and watch.differ(before[1], watch.snap(b)) is None, 'vectors',
            'recording vectors changed the binning or parameters')
    v2 = v.copy()
    v[:] = 0
    v3 = record_binned_vectors(b, ps)      # in any order
    c.check(v3.shape == v2.shape and (np.sort(v3, order=v3.dtype.names)
            == np.sort(v2, order=v2.dtype.names)).all(), 'vectors',
            'overwriting recorded vectors changed later ones')
    t = fetch_paramset_template('dict')
    u = copy.deepcopy(t)
    t['degrees']['ELL'] = 9
    t['tags'].clear()
    t['range'][0] = 1e9
    t.pop('boxsize')
    c.check(fetch_paramset_template('dict') == u, 'template',
            'a fetched template is not a fresh one')
    for _ in range(2):
        t, defaults = fetch_paramset_template('dict', ret_defaults=True)
        c.check(t == u, 'template', 'templates differ with defaults')
    c.count('objects made', 4)


def transform(c):
    """Transform objects are not changed by what is done to results."""
    from triumvirate import transforms as T
    rng = c.rng
    n = 2*int(rng.integers(8, 60))
    x = np.geomspace(*np.sort(rng.uniform([1e-3, 1.], [.1, 50.])), n)
    two = rng.random() < .4
    ext = int(rng.integers(0, 6))
    kw = dict(pivot=float(rng.uniform(.5, 2.)),
              lowring=bool(rng.integers(2)), extrap=ext)
    deg = int(rng.integers(5)), int(rng.integers(5))
    f = (1./(1. + x))**rng.uniform(.5, 2.)
    if two:
        kw['extrap2d'] = bool(rng.integers(2)) and ext > 0
        f = f[:, None]*f[None]
        mk = lambda: T.DoubleSphericalBesselTransform(   # noqa: E731
            deg, (0, 0), x.copy(), **kw)
    else:
        if ext:
            kw['extrap_layer'] = ['native', 'outer'][rng.integers(2)]
            if kw['extrap_layer'] == 'native':
                kw['extrap'] = ext = min(ext, 4)
        mk = lambda: T.SphericalBesselTransform(         # noqa: E731
            deg[0], 0, x.copy(), **kw)
    way = [None, 'forward', 'backward', 1, -1][rng.integers(5)]
    c.params(two=two, degrees=deg, num=n, way=way, **kw)

    def call(t, f):
        if way is None:
            return t.transform(f)
        return t.transform_cosmo_multipoles(way, f)
    if not ext:
        f = f.astype(complex)
    t = mk()
    g = f.copy()
    k, h = call(t, g)
    c.check(np.array_equal(f, g), 'samples', 'samples were changed')
    want = copy.deepcopy((k, h))
    other = call(t, 2.*f)
    c.check(watch.differ(watch.snap(want), watch.snap((k, h))) is None,
            'transform', 'an earlier result changed')
    c.close(other[1], 2.*want[1], 'transform', 1e-9)
    g[...] = 5.
    c.check(watch.differ(watch.snap(want), watch.snap((k, h))) is None,
            'transform', 'a result follows the samples')
    src = x.copy()
    if not two:
        t2 = T.SphericalBesselTransform(deg[0], 0, src, **kw)
        src[...] = 3.
        k2, h2 = call(t2, f)
        c.check(np.array_equal(h2, want[1]), 'transform',
                'a transform follows the array of its sample points')
    h[...] = 0.
    if isinstance(k, np.ndarray):
        k[...] = 0.
    k3, h3 = call(t, f)
    c.check(np.array_equal(h3, want[1]) and np.array_equal(
        np.asarray(k3), np.asarray(want[0])), 'transform',
        'overwriting a result changed later ones')
    c.count('transforms', 5)


def scribble(o):
    if isinstance(o, np.ndarray):
        o[...] = o*1.7 + 1.
    elif isinstance(o, dict):
        for v in o.values():
            scribble(v)
    elif isinstance(o, (tuple, list)):
        for v in o:
            scribble(v)


def windows(c):
    """What formulae and convolutions hand out is the caller's."""
    from triumvirate import winconv as W
    rng = c.rng
    name = sorted(W.NAMED_FORMULAE)[c.idx % len(W.NAMED_FORMULAE)]
    plain = copy.deepcopy(W.NAMED_FORMULAE[name])
    f = W.WinConvFormulae(plain)
    two = len(f.multipoles[0].index) == 1
    terms = {m: list(f[m]) for m in f.multipoles}
    d = f.get_dict()
    for k in list(d):
        d[k].append(d[k][0])
        d[k].reverse()
    for k in list(plain):
        if isinstance(plain[k], list):
            plain[k].clear()
    n, lo, hi = 2*int(rng.integers(5, 12)), .5, rng.uniform(50, 150)
    r = np.geomspace(lo, hi, n)
    kin = np.geomspace(.005, .5, n)
    fourier = bool(rng.integers(2))
    ic = {} if two else dict(ic=float(rng.normal()))
    c.params(formulae=name, n=n, hi=hi, fourier=fourier, ic=ic)
    c.check({m: list(f[m]) for m in f.multipoles} == terms, 'formulae',
            'formulae follow the dictionary handed out or given')
    c.check(all(len(v) == len(terms[k]) for k, v in f.get_dict().items()),
            'formulae', 'the dictionary handed out is shared')

    def samples(x, ms):
        out = {}
        for m in ms:
            v = np.exp(-x/x[-1])*rng.uniform(.5, 1.)
            out[m] = v if two else np.outer(v, v)
        return out
    zs = [m for m in f.multipoles_Z if m != 'ic']
    q = samples(r, f.multipoles_Q)
    if fourier:
        cls = W.PowspecWinConv if two else W.BispecWinConv
        wc = cls(f, r.copy(), q, kin.copy(),
                 r_common=np.geomspace(3., 40., n),
                 transform_kwargs=dict(extrap=0))
        z1, z2 = samples(kin, zs), samples(kin, zs)
        ret = bool(rng.integers(2))
        kw = dict(ic, **{'ret_xi' if two else 'ret_zeta': ret})
    else:
        cls = W.TwoPCFWinConv if two else W.ThreePCFWinConv
        wc = cls(f, r.copy(), q, r.copy(), r_out=np.geomspace(1., 40., n))
        z1, z2 = samples(r, zs), samples(r, zs)
        kw = ic
    given = copy.deepcopy((z1, q))
    a = wc.convolve(z1, **kw)
    kept = copy.deepcopy(a)
    b = wc.convolve(z2, **kw)
    c.check(watch.differ(watch.snap(a), watch.snap(kept)) is None, 'windows',
            'an earlier result changed')
    c.check(watch.differ(watch.snap(given), watch.snap((z1, q))) is None,
            'windows', 'samples were changed')
    scribble(a)
    scribble(b)
    c.check(watch.differ(watch.snap(given), watch.snap((z1, q))) is None,
            'windows', 'samples follow the results')
    again = wc.convolve(z1, **kw)
    c.check(watch.differ(watch.snap(again), watch.snap(kept)) is None,
            'windows', 'overwriting a result changed later ones')
    c.count('convolutions', 3)


def one(f, kind):
    return lambda c: f(c, kind)


GROUPS = [Group('measure-%s-%s' % k, one(measure, k), 14, 150)
          for k in req.KINDS] + [
    Group('returned-%s-%s' % k, one(returned, k), 6, 60)
    for k in req.KINDS] + [
    Group('makers', makers, 60, 600), Group('transform', transform, 120,
                                            1200),
    Group('windows', windows, 40, 400)] + [
    Group('%s-%s' % (p, g), other(p, g), n, 10*n) for p, g, n in [
        ('C15', 'arrays', 20), ('C15', 'files', 20), ('C15', 'ops', 40),
        ('C15', 'los', 15), ('C15', 'types', 15),
        ('C19', 'sbt', 40), ('C19', 'double', 8), ('C19', 'options', 5),
        ('C20', '1d', 40), ('C20', 'oscil', 40), ('C20', '2d', 40),
        ('C20', 'reshape', 40), ('C20', 'resample', 40),
        ('C21', 'coeff', 10), ('C21', 'named', 20), ('C21', 'twopcf', 40),
        ('C21', 'threepcf', 30), ('C21', 'ic', 20), ('C21', 'powspec', 20),
        ('C21', 'bispec', 12), ('C21', 'window', 40),
        ('C21', 'resample', 20), ('C21', 'textfiles', 10),
        ('C11', 'recorded', 20)]]

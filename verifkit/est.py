"""Estimator cases: the Python API against the reference model."""
import numpy as np

from . import ref, trv

TOL2 = 1e-9      # two-point: round-off only
TOL3 = 1e-9      # bispectrum: round-off only
TOLJ = 5e-6      # terms with tabulated spherical Bessel functions


def setup_survey(c, **kw):
    """Survey catalogues in a box; resampled until all are inside."""
    rng = c.rng
    for _ in range(50):
        box, n = trv.rand_grid(rng, **kw)
        align = trv.rand_align(rng)
        nd, nr = int(rng.integers(20, 260)), int(rng.integers(60, 600))
        off = box * rng.uniform(-1.5, 2., 3)
        R = trv.survey_cat(rng, nr, box * rng.uniform(0.45, 0.8), off)
        lo, hi = trv.xyz(R).min(0), trv.xyz(R).max(0)
        D = trv.survey_cat(rng, nd, (hi - lo) * 0.98, lo + (hi - lo)*0.01)
        pd, pr = trv.place([D, R], box, n, align)
        both = np.vstack([pd, pr])
        if both.min() >= 0 and (both < box).all():
            return box, n, align, D, R, pd, pr
    raise RuntimeError('no catalogue fits')


def setup_random(c, **kw):
    """A random catalogue for windows: centred and wrapped, or padded."""
    rng = c.rng
    box, n = trv.rand_grid(rng, **kw)
    align = trv.rand_align(rng) if rng.random() < 0.5 else ('centre',)
    R = trv.survey_cat(rng, int(rng.integers(40, 500)),
                       box * rng.uniform(
                           0.5, 0.97 if align[0] == 'centre' else 0.7),
                       box * rng.uniform(-1.5, 2., 3))
    pr = trv.periodise(R, box) if align[0] == 'centre' \
        else trv.place([R], box, n, align)[0]
    return box, n, align, R, pr


def setup_box(c, **kw):
    rng = c.rng
    box, n = trv.rand_grid(rng, **kw)
    num = int(rng.integers(40, 500))
    p = trv.clustered(rng, num, box)
    B = dict(x=p[:, 0].copy(), y=p[:, 1].copy(), z=p[:, 2].copy())
    nz = None
    if rng.random() < 0.4:
        nz = rng.uniform(0.5, 1.5, num) * num / np.prod(box)
        B['nz'] = nz
    if rng.random() < 0.4:      # only the normalisation may use these
        B['ws'] = rng.uniform(0.5, 2.5, num)
        B['wc'] = rng.uniform(0.3, 1.2, num)
    return box, n, B, trv.periodise(B, box), nz


def boxcat(B, pos, box):
    return ref.Cat(pos, B.get('nz', len(pos)/np.prod(box)), B.get('ws'),
                   B.get('wc'))


def rand_los(rng, cols):
    """Automatic lines of sight, or unrelated ones given by the user."""
    if rng.random() < 0.7:
        return None, trv.unit(trv.xyz(cols))
    los = trv.unit(rng.normal(0, 1, (len(cols['x']), 3)))
    return los, los


def norm_of(conv, g, cat, alpha, npt):
    if conv == 'none':
        return 1.
    if conv == 'particle':
        return ref.norm_particle(cat, alpha, npt)
    if conv == 'mesh':
        return ref.norm_mesh(ref.Grid(g.box, g.n, g.scheme), cat, alpha, npt)
    raise ValueError(conv)


def api_kwargs(rng, box, n, stat, cattype, bs, edges, deg, scheme, il, conv,
               align, form='diag', idx_bin=0, npt=2, wa=None):
    """The same request, through a full parameter set or through separate
    arguments; returns (keywords, name of the route)."""
    from triumvirate.dataobjs import Binning
    ap = trv.align_params(align) if align else {}
    space = 'fourier' if stat in ('powspec', 'bispec') else 'config'
    route = ['paramset', 'paramset+binning', 'args'][rng.integers(3)]
    if route == 'args' and conv != 'particle':
        route = 'paramset'
    if route == 'args':
        b = Binning(space, bs, edges[0], edges[-1], len(edges) - 1)
        sp = dict(boxsize=list(map(float, box)), ngrid=list(map(int, n)),
                  assignment=scheme, interlace=il)
        if align:
            sp['alignment'] = align[0]
            if align[0] == 'pad':
                sp[align[1] + 'pad'] = align[2]
        kw = dict(binning=b, sampling_params=sp)
        if npt == 2:
            kw['degree'] = int(deg[2])
        else:
            kw['degrees'] = tuple(int(x) for x in deg) \
                if rng.random() < 0.5 else '%d%d%d' % tuple(deg)
            kw['form'] = form
            kw['idx_bin'] = idx_bin
        return kw, route
    ps = trv.paramset(box, n, stat, cattype, edges, bs, degrees=deg,
                      assignment=scheme, interlace=il, norm_convention=conv,
                      form=form, idx_bin=idx_bin, **ap)
    kw = dict(paramset=ps)
    if route == 'paramset+binning':
        kw['binning'] = Binning(space, bs, edges[0], edges[-1],
                                len(edges) - 1)
    return kw, route


def case_2pt(c, stat, cattype, interlace=None):
    from triumvirate import twopt
    rng = c.rng
    scheme = trv.SCHEMES[rng.integers(4)]
    il = bool(rng.random() < 0.5) if interlace is None else interlace
    ell = int(rng.integers(0, 5))
    if rng.random() < .15:
        ell = int(rng.integers(5, 9))
    conv = ['particle', 'mesh', 'none'][rng.integers(3)]
    space = 'fourier' if stat == 'powspec' else 'config'
    align = None
    if cattype == 'survey':
        box, n, align, D, R, pd, pr = setup_survey(c)
        nobj = [len(pd), len(pr)]
    elif cattype == 'random':
        box, n, align, R, pr = setup_random(c)
        nobj = [len(pr)]
    else:
        box, n, B, pb, nz = setup_box(c)
        nobj = [len(pb)]
    bs, edges, cen = trv.rand_edges(rng, box, n, space, 2)
    kw, route = api_kwargs(rng, box, n, stat, cattype, bs, edges,
                           (0, 0, ell), scheme, il, conv, align)
    c.params(stat=stat, catalogue=cattype, box=box, ngrid=n, scheme=scheme,
             interlace=il, ell=ell, norm=conv, align=align, bins=bs,
             edges=np.round(edges, 5), objects=nobj, route=route)
    g = ref.Grid(box, n, scheme, il)
    if cattype == 'survey':
        ld, ldr = rand_los(rng, D)
        lr, lrr = rand_los(rng, R)
        rd, rr = trv.refcat(D, pd, ldr), trv.refcat(R, pr, lrr)
        alpha = trv.wstotal(D) / trv.wstotal(R)
        norm = norm_of(conv, g, rr, alpha, 2)
        amp = norm * abs(ref.s_lm([(1., rd), (alpha, rr)], 2, 0, 0))
        fn = twopt.compute_powspec if stat == 'powspec' \
            else twopt.compute_corrfunc
        got = fn(trv.make(D), trv.make(R), los_data=ld, los_rand=lr, **kw)
        rf = ref.powspec if stat == 'powspec' else ref.corrfunc
        want = rf(g, rd, rr, alpha, ell, edges, cen, norm)
    elif cattype == 'random':
        lr, lrr = rand_los(rng, R)
        rr = trv.refcat(R, pr, lrr)
        norm = norm_of(conv, g, rr, 1., 2)
        amp = norm * abs(ref.s_lm([(1., rr)], 2, 0, 0))
        got = twopt.compute_corrfunc_window(trv.make(R), los_rand=lr, **kw)
        want = ref.corrfunc_window(g, rr, 1., ell, edges, cen, norm)
    else:
        rb = boxcat(B, pb, box)
        norm = norm_of(conv, g, rb, 1., 2)
        amp = norm * len(pb)
        fn = twopt.compute_powspec_in_gpp_box if stat == 'powspec' \
            else twopt.compute_corrfunc_in_gpp_box
        got = fn(trv.make(B), **kw)
        rf = ref.powspec_box if stat == 'powspec' else ref.corrfunc_box
        want = rf(g, rb, ell, edges, cen, norm)
    tag = '%s-%s' % (stat, cattype)
    compare_2pt(c, tag, got, want, edges, cen, amp, g)
    return got, want


def compare_2pt(c, tag, got, want, edges, cen, amp, g):
    c.count('bins compared', len(cen))
    if 'pk_raw' in want:
        c.close(got['kbin'], cen, 'bins/' + tag, 1e-12, msg='kbin')
        c.close(got['nmodes'], want['nmodes'], 'count/' + tag, 0,
                msg='nmodes')
        c.close(got['keff'], want['keff'], 'eff/' + tag, 1e-11, msg='keff')
        s = max(np.abs(want['pk_raw']).max(), amp)
        c.close(got['pk_raw'], want['pk_raw'], 'raw/' + tag, TOL2, s,
                msg='pk_raw')
        s = max(np.abs(want['pk_shot']).max(), amp*1e-3)
        c.close(got['pk_shot'], want['pk_shot'], 'shot/' + tag, TOL2, s,
                msg='pk_shot')
    else:
        c.close(got['rbin'], cen, 'bins/' + tag, 1e-12, msg='rbin')
        c.close(got['npairs'], want['npairs'], 'count/' + tag, 0,
                msg='npairs')
        c.close(got['reff'], want['reff'], 'eff/' + tag, 1e-11, msg='reff')
        s = max(np.abs(want['xi']).max(), amp/g.vol)
        c.close(got['xi'], want['xi'], 'value/' + tag, TOL2, s, msg='xi')


def rand_form(rng, nb):
    form = ['full', 'diag', 'off-diag', 'row'][rng.integers(4)]
    if form == 'off-diag':
        return form, int(rng.integers(-nb + 1, nb))
    if form == 'row':
        return form, int(rng.integers(0, nb))
    return form, 0


def case_3pt(c, stat, cattype, wide_angle=False):
    from triumvirate import threept
    rng = c.rng
    scheme = trv.SCHEMES[rng.integers(4)]
    l1, l2, L = trv.DEG3[rng.integers(len(trv.DEG3))]
    if rng.random() < .12:
        l1, l2, L = trv.HIGH3[rng.integers(len(trv.HIGH3))]
    conv = ['particle', 'mesh', 'none'][rng.integers(3)]
    space = 'fourier' if stat == 'bispec' else 'config'
    align, wa = None, None
    gk = dict(lo=6, hi=10) if c.tier == 'quick' else {}
    if cattype == 'survey':
        box, n, align, D, R, pd, pr = setup_survey(c, **gk)
        nobj = [len(pd), len(pr)]
    elif cattype == 'random':
        box, n, align, R, pr = setup_random(c, **gk)
        nobj = [len(pr)]
        if wide_angle:
            wa = [(1, 0), (0, 1), (1, 1), (2, 0), (0, 0)][rng.integers(5)]
    else:
        box, n, B, pb, nz = setup_box(c, **gk)
        nobj = [len(pb)]
    bs, edges, cen = trv.rand_edges(rng, box, n, space, 3, nmax=5)
    form, idx = rand_form(rng, len(cen))
    kw, route = api_kwargs(rng, box, n, stat, cattype, bs, edges,
                           (l1, l2, L), scheme, False, conv, align, form,
                           idx, 3)
    if wide_angle:
        kw['wa_orders'] = wa
    c.params(stat=stat, catalogue=cattype, box=box, ngrid=n, scheme=scheme,
             degrees=[l1, l2, L], form=form, idx_bin=idx, norm=conv,
             align=align, bins=bs, edges=np.round(edges, 5), objects=nobj,
             route=route, wa=wa)
    g = ref.Grid(box, n, scheme, False)
    rf = ref.bispec if stat == 'bispec' else ref.threepcf
    extra = {}
    if cattype == 'survey':
        ld, ldr = rand_los(rng, D)
        lr, lrr = rand_los(rng, R)
        rd, rr = trv.refcat(D, pd, ldr), trv.refcat(R, pr, lrr)
        alpha = trv.wstotal(D) / trv.wstotal(R)
        norm = norm_of(conv, g, rr, alpha, 3)
        t = ref.ThreePt(g, rd, rr, alpha)
        amp = norm * abs(ref.s_lm([(1., rd), (alpha, rr)], 3, 0, 0))
        fn = threept.compute_bispec if stat == 'bispec' \
            else threept.compute_3pcf
        got = fn(trv.make(D), trv.make(R), los_data=ld, los_rand=lr, **kw)
    elif cattype == 'random':
        lr, lrr = rand_los(rng, R)
        rr = trv.refcat(R, pr, lrr)
        norm = norm_of(conv, g, rr, 1., 3)
        t = ref.ThreePt(g, window=rr, alpha=1.)
        amp = norm * abs(ref.s_lm([(1., rr)], 3, 0, 0))
        if wa is not None:
            extra['wa'] = wa
        got = threept.compute_3pcf_window(trv.make(R), los_rand=lr, **kw)
    else:
        rb = boxcat(B, pb, box)
        norm = norm_of(conv, g, rb, 1., 3)
        t = ref.ThreePt(g, box=rb)
        amp = norm * len(pb)
        fn = threept.compute_bispec_in_gpp_box if stat == 'bispec' \
            else threept.compute_3pcf_in_gpp_box
        got = fn(trv.make(B), **kw)
    want = rf(t, l1, l2, L, form, idx, edges, cen, norm, **extra)
    compare_3pt(c, '%s-%s' % (stat, cattype), got, want, amp, g)
    return got, want


def compare_3pt(c, tag, got, want, amp, g):
    p = 'k' if 'bk_raw' in want else 'r'
    v = 'bk' if p == 'k' else 'zeta'
    cnt = 'nmodes' if p == 'k' else 'npairs'
    c.count('bins compared', len(want[v + '_raw']))
    for i in '12':
        c.close(got[p+i+'_bin'], want[p+i+'_bin'], 'bins/' + tag, 1e-12,
                msg=p+i+'_bin')
        c.close(got[p+i+'_eff'], want[p+i+'_eff'], 'eff/' + tag, 1e-11,
                msg=p+i+'_eff')
        c.close(got[cnt+'_'+i], want[cnt+'_'+i], 'count/' + tag, 0,
                msg=cnt+'_'+i)
    unit = amp if p == 'k' else amp / g.vol**2
    raw = want[v + '_raw']
    s = max(np.abs(raw).max(), unit*1e-2)
    c.close(got[v + '_raw'], raw, 'raw/' + tag,
            TOL3 if p == 'k' else TOLJ, s, msg=v + '_raw')
    shot = want[v + '_shot']
    s = max(np.abs(shot).max(), unit*(1e-3 if p == 'k' else 1.))
    c.close(got[v + '_shot'], shot, 'shot/' + tag,
            TOLJ if p == 'k' else TOL3, s, msg=v + '_shot')

"""Normalisation conventions: values, headers and side effects."""
import glob
import os
import re
import shutil

import numpy as np

from verifkit.worker import Group
from verifkit import est, ref, trv

RULE = ('Random survey, window and periodic-box catalogues, weights, box, '
        'mesh, assignment, interlacing, alignment, degrees, form and bins; '
        'each case measures under every convention, saves the results and '
        'compares ratios, values and headers with normalisations computed '
        'directly from the particles; distinct by all of these parameters.')
ASSUMPTIONS = [
    'the mixed-mesh convention uses the documented pypower defaults: 10 per '
    'cent padding, cells of 10 length units, CIC assignment']

NUM = r'([-+0-9.einfa]+)'


def norms(cattype, g, D, R, pd, pr, align, alpha, npt):
    """Reference normalisation factors by convention."""
    cat = trv.refcat(R, pr) if not isinstance(R, ref.Cat) else R
    out = {'none': 1., 'particle': ref.norm_particle(cat, alpha, npt),
           'mesh': ref.norm_mesh(ref.Grid(g.box, g.n, g.scheme), cat, alpha,
                                 npt)}
    if cattype == 'survey' and npt == 2:
        out['mesh-mixed'] = trv.norm_mixed(D, R, align, alpha)
    return out


def header_of(path):
    if path.endswith('.npz'):
        return str(np.load(path)['header'])
    return '\n'.join(ln[1:].strip() for ln in open(path)
                     if ln.startswith('#'))


def case(c, cattype, npt):
    from triumvirate import twopt, threept
    rng = c.rng
    scheme = trv.SCHEMES[rng.integers(4)]
    fourier = cattype != 'random' and rng.random() < .5
    stat = ('powspec' if npt == 2 else 'bispec') if fourier else \
        ('2pcf' if npt == 2 else '3pcf')
    win = cattype == 'random'
    if win:
        stat += '-win'
    il = bool(npt == 2 and rng.random() < .5)
    deg = (0, 0, int(rng.integers(0, 5))) if npt == 2 \
        else trv.DEG3[rng.integers(len(trv.DEG3))]
    kw = dict(boxlo=150., boxhi=420.) if npt == 2 else dict(lo=6, hi=8)
    align, D = None, None
    if cattype == 'survey':
        box, n, align, D, R, pd, pr = est.setup_survey(c, **kw)
        alpha = trv.wstotal(D) / trv.wstotal(R)
    elif win:
        box, n, align, R, pr = est.setup_random(c, **kw)
        pd, alpha = None, 1.
    else:
        box, n, R, pr, nz = est.setup_box(c, **kw)
        pd, alpha = None, 1.
    g = ref.Grid(box, n, scheme, il)
    rr = est.boxcat(R, pr, box) if cattype == 'sim' else R
    want = norms(cattype, g, D, rr, pd, pr, align, alpha, npt)
    space = 'fourier' if fourier else 'config'
    bs, edges, cen = trv.rand_edges(rng, box, n, space, npt, nmax=4)
    form, idx = est.rand_form(rng, len(cen)) if npt == 3 else ('diag', 0)
    c.params(stat=stat, catalogue=cattype, box=box, ngrid=n, scheme=scheme,
             interlace=il, degrees=deg, align=align, bins=bs, form=form,
             idx=idx, edges=np.round(edges, 5), objects=len(pr))
    fn = {'powspec': twopt.compute_powspec, '2pcf': twopt.compute_corrfunc,
          '2pcf-win': twopt.compute_corrfunc_window,
          'bispec': threept.compute_bispec, '3pcf': threept.compute_3pcf,
          '3pcf-win': threept.compute_3pcf_window}[stat]
    if cattype == 'sim':
        fn = {'powspec': twopt.compute_powspec_in_gpp_box,
              '2pcf': twopt.compute_corrfunc_in_gpp_box,
              'bispec': threept.compute_bispec_in_gpp_box,
              '3pcf': threept.compute_3pcf_in_gpp_box}[stat]
    vals, after = {}, {}
    convs = list(want)
    rng.shuffle(convs)
    for conv in convs:
        d = os.path.join(c.scratch, 'c10')
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        cats = [trv.make(q) for q in ([D, R] if D is not None else [R])]
        ps = trv.paramset(
            box, n, stat, cattype, edges, bs, degrees=deg, assignment=scheme,
            interlace=il, norm_convention=conv, form=form, idx_bin=idx,
            directories=dict(catalogues=None, measurements=d),
            **(trv.align_params(align) if align else {}))
        save = ['.txt', '.npz'][rng.integers(2)]
        got = fn(*cats, paramset=ps, save=save)
        files = glob.glob(d + '/*')
        if not c.check(len(files) == 1, 'header/' + stat,
                       'one file saved, not %d' % len(files)):
            continue
        h = header_of(files[0])
        m = re.search(r'Normalisation factor: %s \((\S+)\)' % NUM, h)
        if c.check(m is not None, 'header/' + stat, 'no applied factor',
                   header=h):
            c.check(m.group(2) == conv, 'header/' + stat,
                    'names the convention %r instead of %r'
                    % (m.group(2), conv))
            c.close(float(m.group(1)), want[conv], 'header/' + stat, 2e-9,
                    msg='applied factor (%s)' % conv)
        m = re.search(r'alternatives: %s \(particle\), %s \(mesh\), %s '
                      r'\(mesh-mixed' % (NUM, NUM, NUM), h)
        if c.check(m is not None, 'header/' + stat, 'no alternatives',
                   header=h):
            for i, k in enumerate(['particle', 'mesh', 'mesh-mixed']):
                if k in want:
                    c.close(float(m.group(i+1)), want[k], 'header/' + stat,
                            2e-9, msg='alternative %s' % k)
        vals[conv] = {k: v for k, v in got.items() if k != 'header'}
        after[conv] = [np.array([q[k] for k in ('x', 'y', 'z', 'nz', 'ws',
                                                'wc')]) for q in cats]
    # Amplitude of a single object, for results that cancel to round-off.
    amp = (pd is not None and np.sum(
        np.abs(D['ws']*D['wc'])**npt)) + \
        alpha**npt * np.sum(
            np.ones(rr.n) if cattype == 'sim'
            else np.abs(R['ws']*R['wc'])**npt)
    amp /= 1. if fourier else g.vol**(npt-1)
    for conv in vals:
        if not np.isfinite(want[conv]):
            continue    # no overlap of data and randoms
        for k, v in vals[conv].items():
            if np.iscomplexobj(v):
                s = max(np.abs(vals['none'][k]).max(), amp)
                for o in vals[conv]:     # shot noise relative to its raw
                    if o.endswith('_raw'):
                        s = max(s, np.abs(vals['none'][o]).max())
                c.close(v, vals['none'][k]*want[conv], 'value/' + stat,
                        1e-9, s*want[conv], msg='%s (%s)' % (k, conv))
            else:
                c.close(v, vals['none'][k], 'same/' + stat, 1e-11,
                        msg='%s (%s)' % (k, conv))
        for a, b in zip(after[conv], after['none']):
            c.check(np.array_equal(a, b), 'catalogue/' + stat,
                    'catalogue differs after %s and none' % conv)
    c.count('measurements', len(vals))


def case_reject(c):
    """Conventions that do not apply are refused, not silently zero."""
    rng = c.rng
    stat, cat = [('powspec', 'sim'), ('2pcf', 'sim'), ('2pcf-win', 'random'),
                 ('bispec', 'survey'), ('3pcf', 'sim'),
                 ('3pcf-win', 'random'), ('2pcf', 'none')][c.idx % 7]
    c.params(stat=stat, cat=cat)
    e = np.linspace(.1, .3, 4) if stat in ('powspec', 'bispec') \
        else np.linspace(50., 150., 4)
    conv = 'mesh-mixed' if rng.random() < .7 else 'unknown'
    c.raises(lambda: trv.paramset(
        [500.]*3, [8]*3, stat, cat, e, norm_convention=conv), ValueError,
        'reject', '%s for %s of %s' % (conv, stat, cat))


def case_mixed(c):
    """The mixed-mesh factor for a given padding, cell size and scheme."""
    rng = c.rng
    try:
        from triumvirate._twopt import (
            _calc_powspec_normalisation_from_meshes as factor)
        conv = trv.make(dict(zip('xyz', np.eye(3)*50.), nz=np.ones(3),
                             ws=np.ones(3), wc=np.ones(3))
                        )._convert_to_cpp_catalogue
    except (ImportError, AttributeError):
        return c.count('not offered')
    box, n, align, D, R, pd, pr = est.setup_survey(c, boxlo=150., boxhi=420.)
    # Alignment decides over user and normalisation boxes alike.
    alpha = trv.wstotal(D) / trv.wstotal(R)
    pad, cell = rng.uniform(.02, .8), rng.uniform(12., 90.)
    scheme = trv.SCHEMES[rng.integers(4)]
    if align[0] == 'pad' or rng.random() < .7:
        align = ('centre',)
    c.params(box=box, ngrid=n, align=align, padding=pad, cell=cell,
             scheme=scheme, objects=[len(pd), len(pr)])
    ps = trv.paramset(box, n, 'powspec', 'survey', [.01, .02, .03], 'lin',
                      assignment=trv.SCHEMES[rng.integers(4)],
                      norm_convention='mesh-mixed',
                      **trv.align_params(align))
    cats = [trv.make(q) for q in (D, R)]
    cpp = [q._convert_to_cpp_catalogue() for q in cats]
    want = trv.norm_mixed(D, R, align, alpha, pad, cell, scheme)
    if not np.isfinite(want):
        return
    for i in range(2):      # positions are put back in between
        c.close(factor(*cpp, ps, alpha, padding=float(pad),
                       cellsize=float(cell), assignment=scheme), want,
                'mixed', 1e-9, msg='factor %d' % i)


GROUPS = [
    Group('mixed', case_mixed, 60, 600),
    Group('2pt-survey', lambda c: case(c, 'survey', 2), 70, 700),
    Group('2pt-random', lambda c: case(c, 'random', 2), 40, 400),
    Group('2pt-box', lambda c: case(c, 'sim', 2), 50, 500),
    Group('3pt-survey', lambda c: case(c, 'survey', 3), 40, 400),
    Group('3pt-random', lambda c: case(c, 'random', 3), 30, 300),
    Group('3pt-box', lambda c: case(c, 'sim', 3), 40, 400),
    Group('reject', case_reject, 14, 28),
]

"""Saved measurements against returned results."""
import os
import re
import shutil

import numpy as np

from verifkit.worker import Group
from verifkit import est, req, trv

RULE = ('Sequences of measurements (statistic, catalogue, degrees, form, bin '
        'index, wide-angle orders, tag, file type, numeric settings, random '
        'box, mesh and catalogues) saved into one directory; after each, the '
        'directory is compared with what was returned; distinct by all of '
        'these parameters.')

COLS = {
    'powspec': ['kbin', 'keff', 'nmodes', 'pk_raw', 'pk_shot'],
    '2pcf': ['rbin', 'reff', 'npairs', 'xi'],
    'bispec': ['k1_bin', 'k1_eff', 'nmodes_1', 'k2_bin', 'k2_eff',
               'nmodes_2', 'bk_raw', 'bk_shot'],
    '3pcf': ['r1_bin', 'r1_eff', 'npairs_1', 'r2_bin', 'r2_eff', 'npairs_2',
             'zeta_raw', 'zeta_shot'],
}
STEM = {'powspec': 'pk', '2pcf': 'xi', '2pcf-win': 'xiw', 'bispec': 'bk',
        '3pcf': 'zeta', '3pcf-win': 'zetaw'}


def check_txt(c, r, path, got, key):
    tab = np.loadtxt(path, ndmin=2)
    cols = COLS[r.stat.replace('-win', '')]
    want = []
    for k in cols:
        v = got[k]
        want += [v.real, v.imag] if np.iscomplexobj(v) else [v]
    if not c.check(tab.shape == (len(want[0]), len(want)), key,
                   'table of shape %s' % (tab.shape,)):
        return
    for i, v in enumerate(want):
        c.check(np.allclose(tab[:, i], v, rtol=6e-10, atol=0,
                            equal_nan=True), key,
                'column %d of the table differs from the result' % i,
                got=tab[:, i], want=v)


def check_npz(c, path, got, key):
    with np.load(path) as f:
        c.check(set(f.files) - {'header'} == set(got) - {'header'}, key,
                'entries %s' % sorted(f.files))
        for k in got:
            if k != 'header' and k in f.files:
                c.check(f[k].dtype == got[k].dtype
                        and np.array_equal(f[k], got[k], equal_nan=True),
                        key, 'entry %s differs from the result' % k)
        return str(f['header']) if 'header' in f.files else ''


def nums(s):
    return [float(x) for x in re.findall(r'[-+]?\d+\.?\d*(?:e[-+]\d+)?', s)]


def check_header(c, r, cats, h, key, ps, txt):
    low = h.lower()
    lines = [ln.lstrip('# ').strip() for ln in h.splitlines()]

    def line(start):
        f = [ln for ln in lines if ln.lower().startswith(start)]
        c.check(len(f) == 1, key, '%d header lines start with %r'
                % (len(f), start), header=h)
        return f[0].split(':', 1)[1] if f else ''
    names = [('data catalogue', 'data-source'),
             ('random catalogue', 'random-source')] \
        if r.cat == 'survey' else [('catalogue', 'catalogue')]
    for cat, (a, b) in zip(cats, names):
        v = nums(line(a + ' size'))
        ws = np.array([cat['ws'], cat['wc']])
        w = [len(cat['x']), (ws[0]*ws[1]).sum(), ws[0].sum()]
        c.check(np.allclose(v, w, atol=6e-4, rtol=1e-12), key,
                '%s size %s instead of %s' % (a, v, w))
        v = nums(line(b + ' particle extents'))
        p = np.array([cat[x] for x in 'xyz'])
        w = np.stack([p.min(1), p.max(1)], 1).ravel()
        c.check(len(v) == 6 and np.allclose(v, w, atol=6e-4, rtol=1e-12),
                key, '%s extents %s instead of %s' % (a, v, w))
        c.check(line(a + ' source').strip() != '', key, 'no source')
    c.check(np.allclose(nums(line('box size')), r.box, atol=6e-4), key,
            'box size')
    c.check(np.allclose(nums(line('mesh number')), r.n), key, 'mesh number')
    if r.align:
        c.check(line('box alignment').strip() == r.align[0], key, 'alignment')
    f = line('mesh assignment and interlacing').lower().split(',')
    c.check([x.strip() for x in f] == [r.scheme, str(r.il).lower()], key,
            'assignment and interlacing %s' % f)
    c.check('(%s)' % r.conv in low, key, 'normalisation convention')
    heads = [ln for ln in lines if ln.startswith('[0]')]
    if c.check(len(heads) == 1, key, 'no line of column names', header=h):
        n = re.findall(r'\[(\d+)\] ([^,]+)', heads[0])
        k = 'k' if r.fourier else 'r'
        cnt = 'nmodes' if r.fourier else 'npairs'
        ell = str(r.deg[2]) if r.npt == 2 else '%d%d%d' % tuple(r.deg)
        x = {'powspec': 'pk', '2pcf': 'xi', '2pcf-win': 'xi',
             'bispec': 'bk', '3pcf': 'zeta', '3pcf-win': 'zeta'}[r.stat]
        want = [k + '_cen', k + '_eff', cnt] if r.npt == 2 else \
            [k+'1_cen', k+'1_eff', cnt+'_1', k+'2_cen', k+'2_eff', cnt+'_2']
        for suf in (('_raw', '_shot') if x != 'xi' else ('',)):
            want += ['Re{%s%s%s}' % (x, ell, suf), 'Im{%s%s%s}'
                     % (x, ell, suf)]
        c.check([b.strip() for a, b in n] == want
                and [int(a) for a, b in n] == list(range(len(want))), key,
                'columns named %s instead of %s' % (n, want))


def state(d):
    out = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            out[p] = open(p, 'rb').read()
    return out


def case_one(c, kind):
    """One request, without and with saving."""
    rng = c.rng
    r = req.Req(c, kind)
    d = os.path.join(c.scratch, 'out%d' % c.idx)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    tag = ['', None, '_tag', '_v1.2', '_a-b.c', '.x'][rng.integers(6)]
    save = ['.txt', '.npz'][rng.integers(2)]
    c.params(tag=tag, save=save, **r.describe())
    over = dict(directories=dict(catalogues=None, measurements=d),
                tags=dict(output=tag))
    ref = r.run(over=over)
    c.check(not state(d), 'save/off', 'file written without being asked')
    cats = r.cats()
    ps = r.paramset(**over)
    got = r.run(cats, ps, save=save)
    req.same(c, r, got, ref, 'returned/' + r.stat, msg='result when saving')
    files = state(d)
    if not c.check(len(files) == 1, 'save/one', '%d files' % len(files)):
        return
    path = list(files)[0]
    name = os.path.basename(path)
    ell = str(r.deg[2]) if r.npt == 2 else '%d%d%d' % tuple(r.deg)
    c.check(name.startswith(STEM[r.stat] + ell) and name.endswith(save),
            'name/' + r.stat, 'file is named %s' % name)
    t = tag or ''
    c.check(name[:-4].endswith(t), 'name/' + r.stat,
            'tag %r missing from file name %s' % (t, name))
    key = 'file/' + r.stat
    if save == '.txt':
        h = '\n'.join(ln for ln in open(path) if ln.startswith('#'))
        check_txt(c, r, path, got, key)
    else:
        h = check_npz(c, path, got, key)
    check_header(c, r, cats, h, 'header/' + r.stat, ps, save)
    c.count('files read back')
    shutil.rmtree(d, ignore_errors=True)


def variants(rng, r):
    """Changes that make it another measurement."""
    nb = len(r.cen)
    out = []
    if r.npt == 2:
        for e in range(4):
            out.append(dict(deg=(0, 0, e)))
    else:
        for i in rng.permutation(len(trv.DEG3))[:3]:
            out.append(dict(deg=trv.DEG3[i]))
        for f in ('diag', 'full'):
            out.append(dict(form=f, idx=0))
        for i in range(-nb+1, nb):
            if i:
                out.append(dict(form='off-diag', idx=i))
        for i in range(nb):
            out.append(dict(form='row', idx=i))
        if r.stat == '3pcf-win':
            for w in [(1, 0), (0, 1), (1, 1), (2, 0), None]:
                out.append(dict(wa=w))
    for t in ['', '_one', '_v1.0', '_v1.1', '_v2']:
        out.append(dict(tag=t))
    return out


def case_many(c, kind):
    """Different measurements saved into one directory stay apart."""
    rng = c.rng
    r = req.Req(c, kind, hi=6)
    d = os.path.join(c.scratch, 'many%d' % c.idx)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    save = ['.txt', '.npz'][rng.integers(2)]
    c.params(save=save, **r.describe())
    seen, tag = {}, ''
    vs = variants(rng, r)
    todo = [vs[i] for i in rng.permutation(len(vs))[:8]]
    for v in todo:
        v = dict(v)
        tag = v.pop('tag', tag)
        for k, x in v.items():
            setattr(r, k, x)
        ident = (r.deg, r.form, r.idx, r.wa, tag)
        before = state(d)
        got = r.run(over=dict(directories=dict(catalogues=None,
                                               measurements=d),
                              tags=dict(output=tag)), save=save)
        after = state(d)
        changed = [p for p in before if after.get(p) != before[p]]
        new = [p for p in after if p not in before]
        if ident in seen:
            c.check(not new, 'apart/' + r.stat,
                    'the same measurement saved under two names')
            continue
        c.check(not changed, 'apart/' + r.stat,
                'measurement %s overwrote %s' % (ident, [
                    os.path.basename(p) for p in changed]))
        if c.check(len(new) == 1, 'apart/' + r.stat, '%d new files for %s'
                   % (len(new), ident)):
            seen[ident] = new[0]
            if save == '.txt':
                check_txt(c, r, new[0], got, 'file/' + r.stat)
            else:
                check_npz(c, new[0], got, 'file/' + r.stat)
        c.count('saved in sequence')
    shutil.rmtree(d, ignore_errors=True)


def case_default(c):
    """Without a directory, files go to the working directory; unknown file
    types are refused."""
    rng = c.rng
    r = req.Req(c)
    d = os.path.join(c.scratch, 'cwd%d' % c.idx)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    c.params(**r.describe())
    cwd = os.getcwd()
    os.chdir(d)
    try:
        r.run(save='.txt')
        c.check(len(state(d)) == 1, 'default', 'files %s'
                % sorted(os.path.basename(p) for p in state(d)))
        bad = ['.csv', 'text', '.hdf5'][rng.integers(3)]
        c.raises(lambda: r.run(save=bad), ValueError, 'format',
                 'save=%r' % bad)
        c.check(len(state(d)) == 1, 'format', 'file of unknown type left')
    finally:
        os.chdir(cwd)
    shutil.rmtree(d, ignore_errors=True)


def one(kind):
    return lambda c: case_one(c, kind)


def many(kind):
    return lambda c: case_many(c, kind)


GROUPS = [Group('%s-%s' % k, one(k), 22, 250) for k in req.KINDS] + [
    Group('many-%s-%s' % k, many(k), 5, 50) for k in req.KINDS] + [
    Group('default', case_default, 30, 200)]

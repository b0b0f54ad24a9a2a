"""Application tools process measurement and parameter files faithfully."""
import contextlib
import io
import os
import re
import runpy
import shutil
import sys
import warnings

import numpy as np

from verifkit.worker import Group
from verifkit import build, pdesc, req, trv
from checks import C13, C17, C21

RULE = ('Random measurement files saved by the package (all three-point '
        'statistics, degrees, forms, wide-angle orders, file names) whose '
        'axes are exchanged; sets of numbered measurement files (statistics, '
        'numbers, ranges, directories, mismatched bins) that are combined; '
        'parameter files made from templates by random changes; and lists of '
        'window convolution coefficients; distinct by these parameters.')
ASSUMPTIONS = [
    'the tools that run external packages (nbodykit, pypower) cannot be run '
    'here and are not covered']
CASE_TIMEOUT = 120


def prepare(b):
    return {'VERIF_PARAMS_EXE': b.harness('params')}


class Ran:
    def __init__(self):
        self.out, self.warned, self.err, self.code = '', [], None, 0


def tool(rel, *args, cwd=None):
    """Run one of the tools in this process, as from the command line."""
    path = os.path.join(build.REPO, 'apps', rel)
    r, argv, here = Ran(), sys.argv, os.getcwd()
    out, err = io.StringIO(), io.StringIO()
    sys.argv = [path] + [str(a) for a in args]
    try:
        if cwd:
            os.chdir(cwd)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                try:
                    runpy.run_path(path, run_name='__main__')
                except SystemExit as e:
                    r.code = e.code or 0
                except Exception as e:
                    r.err = e
                r.warned = list(w)
    finally:
        sys.argv = argv
        os.chdir(here)
    r.out = out.getvalue() + err.getvalue()
    return r


def worked(c, r, key, msg=''):
    return c.check(r.err is None and r.code == 0, key,
                   '%s: %r, exit %r, %s' % (msg, r.err, r.code,
                                            r.out[-200:]))


def folder(c, name='d'):
    d = os.path.join(c.scratch, '%s%d' % (name, c.idx))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def comments(path):
    return [ln.rstrip('\n') for ln in open(path) if ln.startswith('#')]


# -- exchange of coordinate axes -----------------------------------------
KINDS3 = [k for k in req.KINDS if k[0] in ('bispec', '3pcf', '3pcf-win')]


def swapped(tab):
    """Rows of a table by their pair of bins, exchanged."""
    out = [tuple(r[[3, 4, 5, 0, 1, 2]]) + tuple(r[6:]) for r in tab]
    return sorted(out, key=lambda r: (r[0], r[3]))


def swap_name(s, ells, sep=''):
    a = sep.join(str(x) for x in ells)
    b = sep.join(str(x) for x in (ells[1], ells[0], ells[2]))
    return s.replace(a, b, 1)


def case_exchange(c):
    rng = c.rng
    kind = KINDS3[c.idx % len(KINDS3)]
    ells = trv.DEG3[rng.integers(len(trv.DEG3))] if c.idx % 4 else \
        trv.DEG3[[3, 4, 5, 7, 8][rng.integers(5)]]
    form = 'full' if rng.random() < .7 else ['diag', 'off-diag'][
        rng.integers(2)]
    r = req.Req(c, kind, deg=ells)
    r.form, r.idx = form, 0
    if form == 'off-diag':
        r.idx = int(rng.integers(-1, 2))
    odd = rng.random() < .5
    if odd:
        r.n = [7, 7, 7]
    tag = ['', '_tag', '_%s' % ('%d%d%d' % tuple(ells)), '_v1.2'][
        rng.integers(4)]
    c.params(tag=tag, **r.describe())
    d = folder(c)
    r.run(over=dict(directories=dict(catalogues=None, measurements=d),
                    tags=dict(output=tag)), save='.txt')
    name = os.listdir(d)[0]
    key = 'exchange/' + r.stat
    # Degrees may be separated by commas, and the suffix may be absent.
    sep, suf = '', '.txt'
    if rng.random() < .2:
        sep = ','
        new = name.replace('%d%d%d' % tuple(ells), '%d,%d,%d' % tuple(ells),
                           1)
        os.rename(os.path.join(d, name), os.path.join(d, new))
        name = new
    if rng.random() < .3:
        suf = ['.dat', '.csv', '.tsv', '.out', '']['v1.2' in tag and
                                                   rng.integers(3) or
                                                   rng.integers(5)]
        os.rename(os.path.join(d, name), os.path.join(d, name[:-4] + suf))
        name = name[:-4] + suf
    src = os.path.join(d, name)
    orig = open(src, 'rb').read()
    where = d if rng.random() < .5 else folder(c, 'o')
    otag = [None, '_x', '_exch.1'][rng.integers(3)]
    args = [src]
    if where != d:
        args += ['--output-dir', where]
    if otag:
        args += ['--output-tag', otag]
    res = tool('io/exchange_coord_axes.py', *args)
    if not worked(c, res, key, 'exchange of ' + name):
        return
    c.check(open(src, 'rb').read() == orig, key, 'input file was changed')
    made = sorted(set(os.listdir(where)) - ({name} if where == d else set()))
    if ells[0] == ells[1]:
        c.check(not made, key, 'equal degrees: made %s' % made)
        c.check(res.out.strip() != '', key, 'equal degrees: no message')
        c.count('not exchanged')
        return
    stem = name[:-len(suf)] if suf else name
    want = swap_name(stem, ells, sep)
    if otag:
        known = ('.dat', '.txt', '.csv', '.tsv')
        want = want + otag + suf if suf in known else want + suf + otag
    else:
        want += suf
    if not c.check(made == [want], key, 'made %s instead of %s'
                   % (made, want)):
        return
    dst = os.path.join(where, want)
    tab, got = np.loadtxt(src, ndmin=2), np.loadtxt(dst, ndmin=2)
    w = np.array(swapped(tab))
    c.check(got.shape == w.shape, key, 'shape %s' % (got.shape,))
    if got.shape == w.shape:
        c.check(np.array_equal(got, w, equal_nan=True), key,
                'rows differ from those exchanged', got=got, want=w)
    ha, hb = comments(src), comments(dst)
    a = '%d%d%d' % tuple(ells)
    x = STEMS[r.stat]
    wh = ha[:-1] + [ha[-1].replace('{%s%s' % (x, a), '{' + x + swap_name(
        a, ells))]
    c.check(x + a in ha[-1], key, 'no column of degrees %s in %s'
            % (a, ha[-1]))
    if not sep:
        c.check(hb == wh, key, 'header %s instead of %s' % (hb, wh))
    c.count('exchanged files')
    # Twice gives the original table.
    back = folder(c, 'b')
    res = tool('io/exchange_coord_axes.py', dst, '--output-dir', back)
    if worked(c, res, key, 'second exchange'):
        f = os.listdir(back)
        tab2 = np.loadtxt(os.path.join(back, f[0]), ndmin=2)
        c.check(len(f) == 1 and np.array_equal(tab, tab2), key,
                'twice exchanged differs')
        if not sep:
            c.check(comments(os.path.join(back, f[0])) == ha, key,
                    'header after two exchanges')
    # The measurement of exchanged degrees is the exchanged measurement.
    if odd and form == 'full' and r.wa is None:
        r2 = r
        r2.deg = (ells[1], ells[0], ells[2])
        two = r2.run()
        names = [k for k in two if np.iscomplexobj(two[k])]
        s = r.noise(two)
        col = 6
        for k in sorted(names, key=lambda k: 'shot' in k):
            v = two[k].ravel()
            c.close(got[:, col] + 1j*got[:, col+1], v, key, 1e-7, scale=s,
                    msg='%s of exchanged degrees' % k)
            col += 2
        c.count('compared with exchanged degrees')


STEMS = {'bispec': 'bk', '3pcf': 'zeta', '3pcf-win': 'zeta'}


def case_exchange_bad(c):
    """File names that are not of three-point measurements."""
    rng = c.rng
    d = folder(c)
    name = ['pk0_a.txt', 'bk_000.txt', 'bk00.txt', 'bk1,2_3.txt',
            'zeta0000.txt'][rng.integers(5)]
    c.params(name=name)
    with open(os.path.join(d, name), 'w') as fh:
        fh.write('# x\n' + '1. 1. 5 2. 2. 5 1. 2. 3. 4.\n'*2)
    before = C17.state(d)
    r = tool('io/exchange_coord_axes.py', os.path.join(d, name))
    c.check(r.err is not None or r.code, 'exchange/bad',
            'no error for ' + name)
    c.check(C17.state(d) == before, 'exchange/bad', 'files changed')


# -- combined data vectors -----------------------------------------------
NCOL = {'pk': 7, 'xi': 5, 'bk': 10, 'zeta': 10}


def table(rng, stat, nb, lo):
    cen = lo + np.sort(rng.uniform(0, 1, nb))
    eff = cen + rng.uniform(-.01, .01, nb)
    cnt = rng.integers(0, 10**6, nb).astype(float)
    first = [cen, eff, cnt]
    if stat in ('bk', 'zeta'):
        # Columns of the first coordinate can differ by shifted bins.
        first = [cen + 3., eff + 5., cnt + 7.] + first
    return first


def write(path, rng, first, ncol):
    vals = [rng.normal(size=len(first[0]))*10.**rng.integers(-3, 6)
            for _ in range(ncol - len(first))]
    tab = np.array(first + vals).T
    n = 3 if ncol < 10 else 6
    fmt = ['%.9e', '%.9e', '%10d']*(n//3) + ['% .9e']*(ncol - n)
    np.savetxt(path, tab, fmt=fmt, delimiter='\t',
               header='Some header\n[0] names', comments='# ')
    return np.loadtxt(path, ndmin=2)


def case_combine(c):
    rng = c.rng
    tag = ['_(.*)', '_A_(.*)_z0.5', '_mock(.*)-x', '_(.*)_'][
        rng.integers(4)]
    ext = ['.txt', '.dat'][rng.integers(2)]
    comps = []
    while len(comps) < rng.integers(1, 5):
        s = ['pk', 'xi', 'bk', 'zeta'][rng.integers(4)]
        k = s + (str(rng.integers(0, 5)) if s in ('pk', 'xi') else
                 '%d%d%d' % trv.DEG3[rng.integers(len(trv.DEG3))])
        if k not in comps:
            comps.append(k)
    serials = sorted(int(x) for x in rng.choice(
        [0, 1, 2, 3, 9, 10, 11, 99, 100, 120], rng.integers(1, 7), False))
    width = [0, 4][rng.integers(2)]
    ranged = rng.random() < .5
    lo, hi = sorted(int(x) for x in rng.choice(serials, 2)) if ranged \
        else (serials[0], serials[-1])
    if ranged and rng.random() < .3:
        hi += 1
    deep = rng.random() < .3
    differ = len(serials) > 1 and rng.random() < .3
    what = pdesc.pick(rng, ['centre', 'eff', 'count'])
    c.params(tag=tag, ext=ext, components=comps, serials=serials,
             width=width, range=[lo, hi] if ranged else None, deep=deep,
             differ=what if differ else None)
    d, out = folder(c), folder(c, 'o')
    firsts, tabs, want_order = {}, {}, None
    for k in comps:
        stat = re.match(r'\D+', k).group()
        nb = int(rng.integers(2, 7))
        first = firsts[k] = table(rng, stat, nb, rng.uniform(.01, 50.))
        for s in serials:
            f = [x.copy() for x in first]
            if differ and s == serials[-1]:
                col = len(f) - 3 + ['centre', 'eff', 'count'].index(what)
                f[col] = f[col]*1.5 + 1.
            name = k + tag.replace('(.*)', '%0*d' % (width, s)) + ext
            sub = os.path.join(d, 'r%d' % (s % 2)) if deep else d
            os.makedirs(sub, exist_ok=True)
            tabs[k, s] = (name, write(os.path.join(sub, name), rng, f,
                                      NCOL[stat]))
    # Other files that do not take part.
    for name in ('notes.txt', 'x' + comps[0] + tag.replace('(.*)', '3') + ext,
                 comps[0] + '_other.npz'):
        open(os.path.join(d, name), 'w').write('nothing\n')
    args = ['--tag', tag + re.escape(ext), '--components', *comps,
            '--input-dir', d, '--output-dir', out]
    if ranged:
        args += ['--range', lo, hi]
    before = C17.state(d)
    if not c.check(tag.count('(.*)') == 1, 'harness', tag):
        return
    r = tool('io/comb_data_vectors.py', *args)
    key = 'combine'
    if not worked(c, r, key, 'combination'):
        return
    c.check(C17.state(d) == before, key, 'input files changed')
    made = os.listdir(out)
    ok = len(made) == 1 and made[0].startswith(''.join(comps)) \
        and made[0].endswith('.npz') and '(.*)' not in made[0]
    if not c.check(ok, key, 'made %s' % made):
        return
    use = [s for s in serials if lo <= s <= hi]
    with np.load(os.path.join(out, made[0])) as f:
        got = {k: f[k] for k in f.files}
    names = ['data_bin_centres', 'data_bin_coords', 'data_bin_counts',
             'data_vectors', 'data_vectors_shotnoise']
    c.check(sorted(got) == sorted(names), key, 'entries %s' % sorted(got))
    # Rows follow the names of the files, within each directory.
    perms = rows(got, comps, tabs, use, c, key)
    if perms is None:
        return
    for i, s in enumerate(perms):
        raw, shot = [], []
        for k in comps:
            t = tabs[k, s][1]
            n = 6 if NCOL[k.rstrip('0123456789')] == 10 else 3
            raw.append(t[:, n] + 1j*t[:, n+1])
            shot.append(t[:, n+2] + 1j*t[:, n+3] if t.shape[1] > n + 2
                        else np.zeros(len(t)))
        c.check(np.array_equal(got['data_vectors'][i],
                               np.concatenate(raw)), key,
                'row %d is not that of number %d' % (i, s))
        c.check(np.array_equal(got['data_vectors_shotnoise'][i],
                               np.concatenate(shot)), key,
                'shot noise of row %d is not that of number %d' % (i, s))
    # Bins are those of one of the files (the same in all, unless warned).
    for j, nm in enumerate(names[:3]):
        ok = any(np.array_equal(got[nm], np.concatenate(
            [tabs[k, s][1][:, (3 if NCOL[k.rstrip('0123456789')] == 10
                               else 0) + j] for k in comps]))
            for s in perms)
        c.check(ok, key, nm + ' are not those of the files')
    told = any('bin' in str(w.message).lower() for w in r.warned)
    c.check(told == (differ and use[-1] == serials[-1] and len(use) > 1),
            key, 'mismatch of bins %s: warnings %s'
            % (differ, [str(w.message)[:80] for w in r.warned]))
    c.count('files combined', len(use)*len(comps))


def rows(got, comps, tabs, use, c, key):
    """The numbers of the rows, from the first component's values."""
    V = got['data_vectors']
    if not c.check(V.shape[0] == len(use), key, '%d rows for numbers %s'
                   % (V.shape[0], use)):
        return None
    k = comps[0]
    n = 6 if NCOL[k.rstrip('0123456789')] == 10 else 3
    out = []
    for v in V:
        hit = [s for s in use if s not in out
               and np.array_equal(tabs[k, s][1][:, n], v[:len(
                   tabs[k, s][1])].real)]
        if not c.check(len(hit) == 1, key, 'a row is of no file'):
            return None
        out.append(hit[0])
    return out


def case_combine_bad(c):
    rng = c.rng
    what = pdesc.pick(rng, ['none', 'stat', 'pole2', 'pole3', 'range',
                            'directory'])
    c.params(what=what)
    d, out = folder(c), folder(c, 'o')
    for k in ('pk0', 'bk000'):
        write(os.path.join(d, k + '_1.txt'), rng, table(
            rng, k.rstrip('0'), 3, 1.), NCOL[k.rstrip('0')])
    comp, tag, more, src = 'pk0', r'_(.*)\.txt', [], d
    if what == 'none':
        comp = pdesc.pick(rng, ['pk2', 'bk110'])
    elif what == 'stat':
        comp = pdesc.pick(rng, ['ck0', 'abc000'])
    elif what == 'pole2':
        comp = 'pk000'
    elif what == 'pole3':
        comp = 'bk0'
    elif what == 'range':
        more = pdesc.pick(rng, [['--range', 1], ['--range', 1, 2, 3]])
    else:
        src = os.path.join(d, 'absent')
    r = tool('io/comb_data_vectors.py', '--tag', tag, '-s', comp,
             '--input-dir', src, '--output-dir', out, *more)
    c.check(r.err is not None or r.code, 'combine/bad',
            'no error for ' + what)
    c.check(not os.listdir(out), 'combine/bad', 'file made for ' + what)


# -- parameter files -----------------------------------------------------
def parse_ini(text):
    out = {}
    for ln in text.splitlines():
        s = ln.split('#')[0]
        if '=' in s:
            k, v = s.split('=', 1)
            out[k.strip()] = v.strip()
    return out


def case_ini(c):
    """Files for the program."""
    rng = c.rng
    d = pdesc.random(rng, mesh_only=True)
    want = parse_ini(pdesc.to_ini(d, None, omit=False))
    packaged = rng.random() < .4
    tpl = os.path.join(folder(c), 'some.tpl.ini')
    if packaged:
        text = open(os.path.join(build.REPO, 'src', 'triumvirate',
                                 'resources', 'params_template.ini')).read()
    else:
        lines = []
        for k in rng.permutation(list(want)):
            u = rng.random()
            if u < .4:
                lines.append('%s = %s' % (k, want[k]))
            elif u < .5:
                lines.append('# %s = 3' % k)
                lines.append('  %s  = %s  # note = 3' % (k, want[k]))
            elif u < .9:
                lines.append('%s = %s' % (k, pdesc.pick(
                    rng, ['', '1', 'tsc', want[k] + '0'])))
            if rng.random() < .1:
                lines.append(pdesc.pick(rng, ['', '#', '# a = b']))
        text = '\n'.join(lines) + '\n'*int(rng.integers(0, 2))
    with open(tpl, 'w') as fh:
        fh.write(text)
    old = parse_ini(text)
    # A program's file must not give an option that has no value as such.
    mods = [k for k in want if old.get(k) != want[k]]
    for k in want:
        if k not in mods and rng.random() < .2:
            mods.append(k)
    mods = [mods[i] for i in rng.permutation(len(mods))]
    mods = [k for k in mods if not want[k].startswith('-')
            or re.fullmatch(r'-\d+(\.\d*)?', want[k])]
    added = [k for k in mods if k not in old]
    args = [tpl]
    for k in mods:
        args += [pdesc.pick(rng, ['-p', '--modify']), k, want[k]]
    out = None
    if rng.random() < .7:
        out = os.path.join(c.scratch, 'new%d' % c.idx, 'x', 'n.ini')
        args += ['-o', out]
    if rng.random() < .2:
        args += ['--fmt', 'ini']
    c.params(packaged=packaged, mods=mods, old=old, named=out is not None,
             **{'to_' + k: v for k, v in d.items()})
    r = tool('io/gen_param_file.py', *args)
    key = 'params/ini'
    if not worked(c, r, key, 'new file'):
        return
    out = out or tpl[:-4] + '_new.ini'
    if not c.check(os.path.isfile(out), key, 'no file ' + out):
        return
    c.check(open(tpl).read() == text, key, 'template was changed')
    new = open(out).read()
    got = parse_ini(new)
    exp = dict(old)
    exp.update({k: want[k] for k in mods})
    c.check(got == exp, key, 'entries differ: %s' % {
        k: (got.get(k), exp.get(k)) for k in set(got) | set(exp)
        if got.get(k) != exp.get(k)})
    names = [ln.split('#')[0].split('=')[0].strip()
             for ln in new.splitlines()]
    c.check(all(names.count(k) == 1 for k in exp), key,
            'entries given more than once')
    keep = [ln for ln in text.splitlines()
            if ln.split('#')[0].split('=')[0].strip() not in mods]
    lines = new.splitlines()
    it = iter(lines)
    c.check(all(ln in it for ln in keep), key,
            'other lines are not kept in order')
    told = [w for w in r.warned if issubclass(w.category, RuntimeWarning)]
    c.check(bool(told) == bool(added), key, 'added %s: warnings %s'
            % (added, [str(w.message)[:100] for w in told]))
    c.check(all(any(k in str(w.message) for w in told) for k in added), key,
            'added ones not named')
    c.count('program files')
    if all(got.get(k) == want[k] for k in want):
        p, dumps = C13.run_ini(c, new)
        if c.check(p.returncode == 0 and len(dumps) == 2, key,
                   'rejected by the program: ' + (p.stdout + p.stderr)[-300:]):
            C13.verify_program(c, dumps[0], d, 'params/program')
            c.count('program files accepted')


def leaves(d, head=()):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from leaves(v, head + (k,))
        else:
            yield head + (k,), v


def put(d, path, v):
    for k in path[:-1]:
        d = d[k]
    d[path[-1]] = v


def typed(v):
    return type(v).__name__ + repr(v)


def text_of(v):
    if isinstance(v, bool):
        return str(v).lower()
    return repr(v) if not isinstance(v, str) else v


def case_yml(c):
    """Files for the package."""
    import copy
    import yaml
    from triumvirate.parameters import ParameterSet
    rng = c.rng
    d = pdesc.random(rng)
    d['cutoff_nyq'] = d['cutoff_nyq'] and max(1e-3, round(d['cutoff_nyq'], 6))
    target = pdesc.to_dict(d)
    src = pdesc.pick(rng, ['packaged', 'full', 'blank'])
    if src == 'packaged':
        path = os.path.join(build.REPO, 'src', 'triumvirate', 'resources',
                            'params_template.yml')
        text = open(path).read()
    else:
        tpl = pdesc.to_dict(pdesc.random(rng)) if src == 'full' \
            else copy.deepcopy(target)
        if src == 'blank':
            for p, v in list(leaves(tpl)):
                if not isinstance(v, list):
                    put(tpl, p, None)
        text = '# note\n---\n' + yaml.safe_dump(tpl, sort_keys=False)
    tpl = yaml.safe_load(text)
    ext = pdesc.pick(rng, ['.yml', '.yaml'])
    path = os.path.join(folder(c), 'a.b' + ext)
    with open(path, 'w') as fh:
        fh.write(text)
    exp, mods, fits = copy.deepcopy(tpl), [], True
    flat = dict(leaves(tpl))
    for p, v in leaves(target):
        old = flat[p]
        if typed(old) == typed(v):
            continue
        ok = v is not None and (
            old is None or isinstance(old, bool) or type(old) is type(v))
        s = text_of(v)
        if isinstance(v, str) and (s.startswith('-') or s == ''):
            ok = False
        if isinstance(v, str) and not isinstance(old, str) and \
                typed(yaml.safe_load(s)) != typed(v):
            ok = False
        if isinstance(v, float) and not re.fullmatch(
                r'-?\d+\.\d*(e[-+]\d+)?', s):
            ok = False
        if not ok:
            fits = False
            continue
        mods.append(('.'.join(p), s))
        put(exp, p, v)
    mods = [mods[i] for i in rng.permutation(len(mods))]
    if src == 'full' and mods and rng.random() < .5:     # only some of them
        mods = mods[:int(rng.integers(len(mods)))]
        fits, exp = False, copy.deepcopy(tpl)
        for k, s in mods:
            p = tuple(k.split('.'))
            put(exp, p, dict(leaves(target))[p])
    args = [path]
    for m in mods:
        args += ['-p', *m]
    out = None
    if rng.random() < .7:
        out = os.path.join(c.scratch, 'new%d' % c.idx, 'x', 'n' + ext)
        args += ['-o', out]
    c.params(source=src, ext=ext, named=out is not None, mods=mods)
    r = tool('io/gen_param_file.py', *args)
    key = 'params/yml'
    if not worked(c, r, key, 'new file'):
        return
    out = out or path[:-len(ext)] + '_new' + ext
    if not c.check(os.path.isfile(out), key, 'no file ' + out):
        return
    c.check(open(path).read() == text, key, 'template was changed')
    got = yaml.safe_load(open(out))
    g, e = dict(leaves(got)), dict(leaves(exp))
    c.check({k: typed(v) for k, v in g.items()}
            == {k: typed(v) for k, v in e.items()}, key,
            'entries differ: %s' % {
                k: (g.get(k), e.get(k)) for k in set(g) | set(e)
                if typed(g.get(k)) != typed(e.get(k))})
    c.check(not r.warned, key, 'warned: %s' % [
        str(w.message)[:100] for w in r.warned])
    c.count('package files')
    if fits:
        C13.verify(c, ParameterSet(param_filepath=out), d, 'params/package')
        c.count('package files accepted')


def case_yml_missing(c):
    """Entries that the template lacks."""
    import yaml
    rng = c.rng
    tpl = pdesc.to_dict(pdesc.random(rng))
    what = pdesc.pick(rng, ['child', 'top', 'parent', 'ext'])
    name = {'child': 'boxsize.w', 'top': 'new_entry', 'parent': 'boxes.x',
            'ext': 'expand'}[what]
    val = pdesc.pick(rng, ['abc', 'x1', 'tsc'])
    d = folder(c)
    path = os.path.join(d, 'a.txt' if what == 'ext' else 'a.yml')
    with open(path, 'w') as fh:
        yaml.safe_dump(tpl, fh, sort_keys=False)
    c.params(what=what, value=val)
    out = os.path.join(d, 'out.yml')
    r = tool('io/gen_param_file.py', path, '-o', out, '-p', name, val)
    if what in ('parent', 'ext'):
        c.check(r.err is not None, 'params/missing', 'no error for ' + what)
        c.check(not os.path.exists(out), 'params/missing', 'file was made')
        return
    if not worked(c, r, 'params/missing', what):
        return
    told = [str(w.message) for w in r.warned
            if issubclass(w.category, RuntimeWarning)]
    c.check(any(name in m for m in told), 'params/missing',
            'warnings %s for %s' % (told, name))
    got = yaml.safe_load(open(out))
    tpl = yaml.safe_load(open(path))
    if what == 'top':
        tpl[name] = val
    else:
        tpl['boxsize']['w'] = val
    c.check(got == tpl, 'params/missing', 'entries after adding')


# -- window convolution coefficients -------------------------------------
def case_coefficients(c):
    from triumvirate.winconv import Multipole
    rng = c.rng
    pool = [m for m in C21.M3 if sum(m) <= 4]
    m = pool[rng.integers(len(pool))]
    ws, us = ([pool[i] for i in rng.choice(
        len(pool), min(len(pool), int(rng.integers(1, 5))), False)]
        for _ in range(2))
    sort = [None, 'c', 'u', 'w'][rng.integers(4)]
    save = [None, 'terms', 'terms.npy'][rng.integers(3)]
    c.params(m=m, w=ws, u=us, sort=sort, save=save)

    def s(v):
        return '%d%d%d' % tuple(v)
    args = [s(m), '-w', *map(s, ws), '-u', *map(s, us)]
    if sort:
        args += ['-r', sort]
    d = folder(c)
    if save:
        args += ['-s', os.path.join(d, save)]
    r = tool('calculators/gen_wc_coeffs.py', *args)
    key = 'coefficients'
    if not worked(c, r, key, 'table'):
        return
    ref = {(w, u): C21.coupling3(m, w, u) for w in ws for u in us}
    ref = {k: v for k, v in ref.items() if abs(v) > 1e-10}

    def digits(x):
        return tuple(int(y) for y in re.findall(r'\d', x))
    got = []
    from fractions import Fraction
    for ln in r.out.splitlines():
        g = re.fullmatch(r'\s*(\S+):\s+(\S+) Q_\{(.*?)\} Z_\{(.*?)\}\s*', ln)
        if not g:
            c.check('Saved' in ln or not ln.strip(), key, 'line %r' % ln)
            continue
        c.check(digits(g[1]) == m, key, 'line of %s: %s' % (m, ln))
        try:
            v = float(Fraction(g[2]))
        except ValueError:
            from sympy import sympify
            v = float(sympify(g[2]))
        got.append((digits(g[3]), digits(g[4]), v))
    check_terms(c, key, got, ref, sort)
    files = os.listdir(d)
    c.check(files == (['terms.npy'] if save else []), key,
            'files %s' % files)
    if save and files:
        T = np.load(os.path.join(d, files[0]), allow_pickle=True)
        terms = []
        for t in T:
            if hasattr(t, 'multipole_Q'):
                terms.append((t.multipole_Q.index, t.multipole_Z.index,
                              float(t.coeff)))
            else:
                terms.append((Multipole(t[0]).index, Multipole(t[1]).index,
                              float(t[2])))
        check_terms(c, key + '/saved', terms, ref, sort)
    c.count('terms', len(ref))
    c.count('tables')


def check_terms(c, key, got, ref, sort):
    c.check(sorted(t[:2] for t in got) == sorted(ref), key,
            'terms %s instead of %s' % (got, ref))
    for a, b, v in got:
        if (a, b) in ref:
            c.close(v, ref[a, b], key, 1e-10, atol=1e-12,
                    msg='coefficient of %s, %s' % (a, b))
    first = {'u': lambda t: t[1], 'w': lambda t: t[0]}.get(
        sort, lambda t: -round(t[2], 9))
    ks = [first(t) for t in got]
    c.check(ks == sorted(ks), key, 'not sorted by %s: %s' % (sort, got))


GROUPS = [
    Group('exchange', case_exchange, 150, 1500),
    Group('exchange-bad', case_exchange_bad, 10, 50),
    Group('combine', case_combine, 200, 2500),
    Group('combine-bad', case_combine_bad, 20, 100),
    Group('ini', case_ini, 200, 2500),
    Group('yml', case_yml, 250, 3000),
    Group('yml-missing', case_yml_missing, 20, 100),
    Group('coefficients', case_coefficients, 60, 400),
]

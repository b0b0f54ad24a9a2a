"""Boxes and meshes derived from catalogues."""
import os
import re
import shutil
import tempfile
import warnings

import numpy as np

from verifkit.worker import Group
from verifkit import prog, req, trv
from verifkit.auto import Auto
from checks.C16 import compare, program_files, write_files

RULE = ('Random catalogues (extent, anisotropy, position), expansion factors '
        'and cutoffs (some exactly at a mesh number) with the box, the mesh '
        'or both left to be derived, for every statistic and alignment, in '
        'the package and the program; the measurement is compared with one '
        'given the expected box and mesh explicitly; catalogues that do not '
        'fit a given box; distinct by all of these.')
ASSUMPTIONS = [
    'a cutoff within 1e-12 of an even mesh number may round either way']


def prepare(build):
    return {'VERIF_EXE': build.exe()}


def package(c, kind):
    a = Auto(c, kind)
    r = a.r
    a.describe(c)
    key = '%s-%s' % (r.stat, r.cat)
    d = tempfile.mkdtemp(dir=c.scratch)
    cats = r.cats()
    ps = r.paramset(directories=dict(catalogues=None, measurements=d),
                    **a.over())
    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter('always')
        res = r.run(cats, ps, save='.txt')
    for q in cats:
        for ax, L in zip('xyz', r.box):
            v = np.asarray(q[ax])
            c.check(v.min() >= -1e-9*L and v.max() <= L*(1 + 1e-9),
                    'inside/' + key, '%s within [%r, %r] of box %r'
                    % (ax, v.min(), v.max(), L))
    f, = os.listdir(d)
    head = [ln.lstrip('# ').strip() for ln in open(os.path.join(d, f))
            if ln.startswith('#')]
    if a.reported(c, head, key):
        want = r.run()
        req.same(c, r, res, want, 'result/' + key, eff=1e-9,
                 msg='with derived box')
    c.count('derived in the package')
    shutil.rmtree(d)


def program(c, kind):
    a = Auto(c, kind)
    r = a.r
    rng = c.rng
    d = tempfile.mkdtemp(dir=c.scratch)
    where, names, files, full = write_files(c, d, r)
    key = 'program-%s-%s' % (r.stat, r.cat)
    if r.cat == 'sim':
        # Not wrapped: the extents are to be those of the catalogue.
        p, = trv.place(r.cols, r.box, r.n, ('centre',))
        q = dict(r.cols[0], x=p[:, 0], y=p[:, 1], z=p[:, 2])
        prog.write_catalogue(os.path.join(d, where, 'own.txt'), q, names)
        files = ['own.txt']
    a.describe(c, columns=names, files=files)
    prog.write_ini(os.path.join(d, 'p.ini'), prog.settings(
        r, **dict(a.program(), **program_files(r, where, names, files))),
        rng)
    res = prog.run(os.environ['VERIF_EXE'], d)
    if not c.check(res.code == 0, 'exit/' + key, 'program exits with %d: %s'
                   % (res.code, res.text[-300:])):
        return
    path = os.path.join(d, 'out', prog.expected_name(r))
    if c.check(os.path.exists(path), 'exit/' + key, 'no measurement file'):
        got, head = prog.read_table(path, r.stat)
        if a.reported(c, head, key):
            compare(c, r, got, r.run(), 'result/' + key)
    c.count('derived in the program')
    shutil.rmtree(d)


def unfit(c):
    """A catalogue that does not fit is reported by the package."""
    rng = c.rng
    r = req.Req(c, req.KINDS[rng.integers(len(req.KINDS))])
    how = 'span' if r.cat != 'survey' or rng.random() < .5 else 'offset'
    ax = int(rng.integers(3))
    frac = float(rng.uniform(.3, .97))
    if r.conv == 'mesh-mixed':
        r.conv = 'none'
    box = r.box.copy()
    if how == 'span':
        box[ax] = frac*np.ptp(trv.xyz(r.cols[-1]), axis=0)[ax]
    else:
        s = [-1., 1.][rng.integers(2)]
        r.cols[0]['xyz'[ax]] += s*box[ax]*rng.uniform(.7, 3.)
    r.box = box
    c.params(how=how, axis=ax, frac=frac, **r.describe())
    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter('always')
        r.run()
    msg = [str(w.message) for w in got]
    c.check(any(re.search(r'box', m, re.I) for m in msg), 'unfit/' + how,
            'not reported: %s' % msg)
    c.count('unfit catalogues')


def unfit_program(c):
    """A catalogue that does not fit is reported by the program."""
    rng = c.rng
    r = req.Req(c, req.KINDS[rng.integers(len(req.KINDS))])
    how = 'span' if r.cat != 'survey' or rng.random() < .5 else 'offset'
    ax = int(rng.integers(3))
    if r.conv == 'mesh-mixed':
        r.conv = 'none'
    if how == 'span':
        # Periodic catalogues are wrapped by the program, so always fit.
        if r.cat == 'sim' or r.cat == 'random' and r.align[0] == 'centre':
            r = req.Req(c, ('powspec', 'survey'))
            r.conv = 'none'
        r.box[ax] = float(rng.uniform(.3, .97)) \
            * np.ptp(trv.xyz(r.cols[-1]), axis=0)[ax]
    else:
        s = [-1., 1.][rng.integers(2)]
        r.cols[0]['xyz'[ax]] += s*r.box[ax]*rng.uniform(.7, 3.)
    d = tempfile.mkdtemp(dir=c.scratch)
    where, names, files, full = write_files(c, d, r)
    c.params(how=how, axis=ax, files=files, **r.describe())
    prog.write_ini(os.path.join(d, 'p.ini'), prog.settings(
        r, verbose=20, **program_files(r, where, names, files)), rng)
    res = prog.run(os.environ['VERIF_EXE'], d)
    c.check(any('WARN' in ln and 'box' in ln.lower()
                for ln in res.text.split('\n')),
            'unfit-program/' + how, 'not reported: exit %d' % res.code)
    c.count('unfit catalogues')
    shutil.rmtree(d)


def one(f, kind):
    return lambda c: f(c, kind)


GROUPS = [Group('%s-%s' % k, one(package, k), 16, 200) for k in req.KINDS] + [
    Group('program-%s-%s' % k, one(program, k), 8, 80) for k in req.KINDS] + [
    Group('unfit', unfit, 60, 600), Group('unfit-program', unfit_program, 24,
                                          240)]

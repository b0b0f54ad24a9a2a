"""The program and the package, run on the same files."""
import os
import shutil
import tempfile

import numpy as np

from verifkit.worker import Group
from verifkit import prog, req

RULE = ('Random requests (statistic, catalogue type, box, mesh, assignment, '
        'interlacing, degrees, form, binning, normalisation, alignment) on '
        'random catalogue files (column orders, unused and left-out columns, '
        'comments, several files); the measurement file of the program is '
        'compared with the results the package returns and saves for the '
        'same files; distinct by all of these.')
ASSUMPTIONS = ['paths hold no white space (the program reads words)',
               'periodic catalogues are compared at the placement of the '
               'package, which centres them; the program only wraps them']


def prepare(build):
    return {'VERIF_EXE': build.exe()}


def layout(rng, q, cat):
    """Columns of a catalogue file in some order."""
    names = ['x', 'y', 'z']
    drop = []
    for k in ('nz', 'ws', 'wc'):
        if k in q:
            one = k != 'nz' and np.all(q[k] == 1.)
            if one and rng.random() < .5:
                drop.append(k)
            else:
                names.append(k)
    if rng.random() < .3:
        names.append('other')
    return [names[i] for i in rng.permutation(len(names))]


def write_files(c, d, r):
    """Catalogue files: a description for the program, one path each for
    the package."""
    rng = c.rng
    names = layout(rng, r.cols[0], r.cat) if r.cat != 'survey' else \
        layout(rng, {k: np.stack([r.cols[0][k][:1], r.cols[1][k][:1]])
                     if k in 'xyz' or k == 'nz' else
                     np.append(r.cols[0][k], r.cols[1][k])
                     for k in r.cols[0]}, r.cat)
    untidy = rng if rng.random() < .5 else None
    ext = ['.txt', '.dat', ''][rng.integers(3)]
    where = ['', 'cats', 'cats/', './cats/sub'][rng.integers(4)]
    os.makedirs(os.path.join(d, where or '.'), exist_ok=True)
    out, full = [], []
    for i, q in enumerate(r.cols):
        one = 'cat%d%s' % (i, ext)
        prog.write_catalogue(os.path.join(d, where, one), q, names, untidy)
        full.append(os.path.join(d, where, one))
        if r.cat == 'sim':
            # The package centres the catalogue in the periodic box while
            # the program leaves it in place, if wrapped.
            p = r.pos[0] + r.box*rng.integers(-1, 2, r.pos[0].shape) \
                if rng.random() < .5 else r.pos[0]
            q = dict(q, x=p[:, 0], y=p[:, 1], z=p[:, 2])
            one = 'placed' + ext
            prog.write_catalogue(os.path.join(d, where, one), q, names,
                                 untidy)
        if rng.random() < .3:
            k = int(rng.integers(1, len(q['x'])))
            parts = []
            for j, s in enumerate([slice(0, k), slice(k, None)]):
                name = 'part%d%d%s' % (i, j, ext)
                prog.write_catalogue(
                    os.path.join(d, where, name),
                    {a: v[s] for a, v in q.items()}, names, untidy)
                parts.append(name)
            one = '::'.join(parts)
        out.append(one)
    return where, names, out, full


def program_files(r, where, names, files):
    data, rand = (files + [None])[:2] if r.cat == 'survey' else \
        (None, files[0]) if r.cat == 'random' else (files[0], None)
    return dict(data=data, rand=rand, columns=','.join(names),
                catalogue_dir=where)


def read(path, names):
    from triumvirate.catalogue import ParticleCatalogue
    return ParticleCatalogue.read_from_file(path, names=list(names))


def compare(c, r, got, want, key):
    s = r.noise(want)
    for k in got:
        tol = 6e-10*np.abs(want[k]) + (1e-9*s if np.iscomplexobj(want[k])
                                       else 0.)
        if not c.check(got[k].shape == want[k].shape, key,
                       '%s has shape %s and %s' % (k, got[k].shape,
                                                   want[k].shape)):
            continue
        ok = np.abs(got[k] - want[k]) <= tol
        ok |= np.isnan(got[k]) & np.isnan(want[k])
        c.check(ok.all(), key, '%s differs' % k, got=got[k], want=want[k])


def case(c, kind):
    rng = c.rng
    r = req.Req(c, kind)
    d = tempfile.mkdtemp(dir=c.scratch)
    where, names, files, full = write_files(c, d, r)
    tag = ['', '_tag', '_v1.2', '-x'][rng.integers(4)]
    out = ['out', 'deep/er/out/', '.'][rng.integers(3)]
    threads = int(rng.integers(1, 4))
    fftw = [None, 'estimate', 'measure'][rng.integers(3)]
    c.params(files=files, where=where, columns=names, tag=tag, out=out,
             threads=threads, fftw=fftw, **r.describe())
    p = prog.settings(r, output_tag=tag, measurement_dir=out,
                      fftw_scheme=fftw,
                      **program_files(r, where, names, files))
    prog.write_ini(os.path.join(d, 'p.ini'), p, rng)
    res = prog.run(os.environ['VERIF_EXE'], d, OMP_NUM_THREADS=threads)
    key = '%s-%s' % (r.stat, r.cat)
    if not c.check(res.code == 0, 'exit/' + key, 'program exits with %d: %s'
                   % (res.code, res.text[-300:])):
        return
    name = prog.expected_name(r, tag)
    path = os.path.join(d, out, name)
    if not c.check(os.path.exists(path), 'name/' + key, 'no %s among %s'
                   % (name, res.files(out))):
        return
    got, head = prog.read_table(path, r.stat)
    odir = os.path.join(d, 'py')
    os.makedirs(odir)
    cats = [read(f, names) for f in full]
    want = r.run(cats, over=dict(
        directories=dict(catalogues=None, measurements=odir),
        tags=dict(output=tag)), save='.txt')
    compare(c, r, got, want, 'values/' + key)
    saved, = os.listdir(odir)
    pyhead = [ln.lstrip('# ').strip() for ln in open(os.path.join(
        odir, saved)) if ln.startswith('#')]
    for start in ('box size', 'mesh number', 'normalisation factor:',
                  'normalisation factor alternatives'):
        a = prog.header_numbers(head, start)
        b = prog.header_numbers(pyhead, start)
        c.check(a is not None and b is not None and len(a) == len(b)
                and np.allclose(a, b, rtol=3e-9, atol=6e-4 if 'box' in start
                                else 0), 'header/' + key,
                '%s: program %s, package %s' % (start, a, b))
    for start in ('catalogue size', 'data catalogue size',
                  'random catalogue size'):
        a = prog.header_numbers(head, start)
        b = prog.header_numbers(pyhead, start)
        if a or b:
            c.check(a and b and np.allclose(a, b, atol=2e-3, rtol=0),
                    'header/' + key, '%s: program %s, package %s'
                    % (start, a, b))
    heads = [[ln for ln in h if ln.startswith('[0]')] for h in (head, pyhead)]
    c.check(heads[0] == heads[1], 'header/' + key, 'column names %s and %s'
            % tuple(heads))
    c.count('program runs')
    c.count('bins compared', len(next(iter(got.values()))))
    shutil.rmtree(d)


def one(kind):
    return lambda c: case(c, kind)


GROUPS = [Group('%s-%s' % k, one(k), 24, 240) for k in req.KINDS]

"""Runs of the command-line program, from files it reads and writes."""
import glob
import os
import re
import subprocess

import numpy as np

from .build import clean_env, san_env

COLS = {
    'powspec': ['kbin', 'keff', 'nmodes', 'pk_raw', 'pk_shot'],
    '2pcf': ['rbin', 'reff', 'npairs', 'xi'],
    'bispec': ['k1_bin', 'k1_eff', 'nmodes_1', 'k2_bin', 'k2_eff',
               'nmodes_2', 'bk_raw', 'bk_shot'],
    '3pcf': ['r1_bin', 'r1_eff', 'npairs_1', 'r2_bin', 'r2_eff', 'npairs_2',
             'zeta_raw', 'zeta_shot'],
}
STEM = {'powspec': 'pk', '2pcf': 'xi', '2pcf-win': 'xiw', 'bispec': 'bk',
        '3pcf': 'zeta', '3pcf-win': 'zetaw', '3pcf-win-wa': 'zetaw'}


def base(stat):
    return stat.replace('-win', '').replace('-wa', '')


def write_catalogue(path, cols, names, rng=None, fmt='%r'):
    """A text catalogue; with `rng`, in an untidy but valid layout."""
    q = dict(cols)
    n = len(q['x'])
    with open(path, 'w') as fh:
        if rng is not None and rng.random() < .5:
            fh.write('# %s\n' % ' '.join(names))
        for i in range(n):
            row = []
            for k in names:
                v = q.get(k)
                row.append('7.5' if v is None else fmt % float(v[i]))
            sep = ' ' if rng is None else [' ', '\t', '   '][rng.integers(3)]
            fh.write(('  ' if rng is not None and rng.random() < .1 else '')
                     + sep.join(row) + '\n')
            if rng is not None and rng.random() < .02:
                fh.write(['\n', '# comment\n'][rng.integers(2)])


def settings(r, data=None, rand=None, columns=None, **over):
    """Parameters of the program for a request (`verifkit.req.Req`)."""
    stat = r.stat + ('-wa' if getattr(r, 'wa', None) is not None else '')
    p = dict(
        catalogue_dir='', measurement_dir='out', output_tag='',
        data_catalogue_file=data, rand_catalogue_file=rand,
        catalogue_columns=columns,
        boxsize_x=r.box[0], boxsize_y=r.box[1], boxsize_z=r.box[2],
        ngrid_x=r.n[0], ngrid_y=r.n[1], ngrid_z=r.n[2],
        assignment=r.scheme, interlace='true' if r.il else 'false',
        catalogue_type=r.cat, statistic_type=stat,
        ell1=r.deg[0], ell2=r.deg[1], ELL=r.deg[2],
        form=r.form, idx_bin=r.idx, norm_convention=r.conv,
        binning=r.bs, bin_min=r.edges[0], bin_max=r.edges[-1],
        num_bins=len(r.edges) - 1, verbose=60, progbar='false')
    if r.align:
        p['alignment'] = r.align[0]
        if r.align[0] == 'pad':
            p.update(padscale=r.align[1], padfactor=r.align[2])
    if getattr(r, 'wa', None) is not None:
        p.update(i_wa=r.wa[0], j_wa=r.wa[1])
    p.update(over)
    return {k: v for k, v in p.items() if v is not None and v != ''}


def value(v):
    if isinstance(v, (float, np.floating)):
        return repr(float(v))
    return str(v)


def write_ini(path, p, rng=None):
    keys = list(p)
    if rng is not None:
        keys = [keys[i] for i in rng.permutation(len(keys))]
    with open(path, 'w') as fh:
        for k in keys:
            fh.write('%s = %s\n' % (k, value(p[k])))


class Result:
    def __init__(self, proc, dir):
        self.code, self.dir = proc.returncode, dir
        self.text = proc.stdout.decode(errors='replace')

    def files(self, sub='out'):
        top = os.path.join(self.dir, sub)
        return sorted(os.path.relpath(f, top) for f in glob.glob(
            os.path.join(top, '**'), recursive=True) if os.path.isfile(f))


def run(exe, dir, ini='p.ini', timeout=100, san=False, **env):
    e = san_env(leaks=san == 'leaks', preload=False, **env) if san \
        else clean_env(**env)
    p = subprocess.run([exe, ini], cwd=dir, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    return Result(p, dir)


def expected_name(r, tag=''):
    """Name of the program's measurement file."""
    if r.npt == 2:
        return '%s%d%s' % (STEM[r.stat], r.deg[2], tag)
    form = {'off-diag': 'offdiag%d' % r.idx, 'row': 'row%d' % r.idx}.get(
        r.form, r.form)
    wa = '' if r.wa is None else '_wa%d%d' % tuple(r.wa)
    return '%s%d%d%d%s_%s%s' % ((STEM[r.stat],) + tuple(r.deg)
                                + (wa, form, tag))


def read_table(path, stat):
    """Entries of a measurement file, and its header lines."""
    with open(path) as fh:
        head = [ln[1:].strip() for ln in fh if ln.startswith('#')]
    tab = np.loadtxt(path, ndmin=2)
    out, i = {}, 0
    for k in COLS[base(stat)]:
        cx = k in ('pk_raw', 'pk_shot', 'xi', 'bk_raw', 'bk_shot',
                   'zeta_raw', 'zeta_shot')
        out[k] = tab[:, i] + 1j*tab[:, i+1] if cx else tab[:, i]
        i += 2 if cx else 1
    if tab.shape[1] != i:
        raise ValueError('%d columns instead of %d' % (tab.shape[1], i))
    return out, head


def header_numbers(head, start):
    for ln in head:
        if ln.lower().startswith(start.lower()):
            return [float(x) for x in re.findall(
                r'[-+]?\d+\.?\d*(?:e[-+]\d+)?', ln.split(':', 1)[1])]
    return None

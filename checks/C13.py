"""Parameter sets hold their restrictions, derivations and defaults."""
import math
import os
import subprocess

from verifkit.worker import Group
from verifkit import pdesc
from verifkit.build import san_env

RULE = ('Random valid parameter descriptions (statistics, catalogue types, '
        'set and unset boxes and meshes, all options, letter case, omitted '
        'and null entries) given as dictionaries, YAML files and program '
        'parameter files; the same with one documented restriction broken; '
        'and random sequences of valid and invalid changes by item, '
        'attribute and update; distinct by description.')
ASSUMPTIONS = [
    'the package fills in an unset catalogue or statistic type from the '
    'measurement called, so unknown types are only required to be rejected '
    'by the program']
CASE_TIMEOUT = 120


def prepare(build):
    exe = build.harness('params')
    return {'VERIF_PARAMS_EXE': exe}


REJECT = (ValueError, TypeError, KeyError, RuntimeError, AttributeError)
SAME = ('expand', 'cutoff_nyq', 'alignment', 'padscale', 'assignment',
        'catalogue_type', 'statistic_type', 'form', 'norm_convention',
        'binning', 'num_bins', 'fftw_scheme', 'verbose')


def verify(c, ps, d, tag):
    """A valid set holds the given, derived and default values."""
    want = pdesc.derived(d)
    for k in SAME:
        got = ps.get(k)
        c.check(got == d[k], tag + ':value',
                '%s is %r, given %r' % (k, got, d[k]))
        if d[k] is not None:
            try:
                c.check(getattr(ps, k) == ps[k], tag + ':access', k)
            except Exception as e:
                c.fail(tag + ':access', '%s: %r' % (k, e))
    c.check(ps.get('padfactor') == d['padfactor'], tag + ':value', 'padfactor')
    c.check(ps['idx_bin'] == d['idx_bin'], tag + ':value', 'idx_bin')
    c.check(list(ps['range']) == d['range'], tag + ':value', 'range')
    c.check([ps['degrees'][k] for k in ('ell1', 'ell2', 'ELL')]
            == d['degrees'], tag + ':value', 'degrees')
    c.check([ps['wa_orders'][k] for k in 'ij'] == d['wa_orders'],
            tag + ':value', 'wa_orders')
    if d['boxsize'] is not None:
        c.check([ps['boxsize'][k] for k in 'xyz'] == d['boxsize'],
                tag + ':value', 'boxsize')
    for k in ('npoint', 'space', 'assignment_order', 'interlace',
              'fftw_planner_flag'):
        c.check(ps[k] == want[k] and type(ps[k]) is type(want[k]),
                tag + ':derived',
                '%s is %r instead of %r' % (k, ps[k], want[k]))
    c.check(ps['use_fftw_wisdom'] == want['use_fftw_wisdom'],
            tag + ':derived', 'wisdom %r instead of %r'
            % (ps['use_fftw_wisdom'], want['use_fftw_wisdom']))
    if want['use_fftw_wisdom'] and want['ngrid']:
        for k, way in (('f', 'f'), ('b', 'b')):
            name = ps['fftw_wisdom_file_' + k]
            c.check(name.startswith(want['use_fftw_wisdom'])
                    and '%dx%dx%d' % tuple(ps['ngrid'][a] for a in 'xyz')
                    in name, tag + ':derived', 'wisdom file ' + name)
        c.check(ps['fftw_wisdom_file_f'] != ps['fftw_wisdom_file_b'],
                tag + ':derived', 'one wisdom file for both directions')
    c.check(math.isclose(ps['volume'], want['volume'], rel_tol=1e-12),
            tag + ':derived', 'volume %r' % ps['volume'])
    n = [ps['ngrid'][k] for k in 'xyz']
    if want['ngrid'] is None:
        c.check(ps['nmesh'] == 0 and None in n, tag + ':derived', 'nmesh')
    else:
        c.check(all(a in b for a, b in zip(n, want['ngrid'])),
                tag + ':derived', 'mesh %s instead of %s'
                % (n, want['ngrid']))
        c.check(all(isinstance(a, int) for a in n), tag + ':derived',
                'mesh of type %s' % type(n[0]))
        c.check(ps['nmesh'] == math.prod(n), tag + ':derived',
                'nmesh %r for %s' % (ps['nmesh'], n))
    p = ps['progbar']
    c.check(p == d['progbar'] and isinstance(p, bool)
            == isinstance(d['progbar'], bool), tag + ':value',
            'progbar %r for %r' % (p, d['progbar']))


def describe(c, d, **kw):
    c.params(**{k: d[k] for k in sorted(d)}, **kw)


def source(c, d, rng, how):
    """Build a parameter set from a dictionary or a file."""
    from triumvirate.parameters import ParameterSet
    spec = pdesc.to_dict(d, rng)
    if how == 'dict':
        return lambda: ParameterSet(param_dict=spec)
    import yaml
    path = os.path.join(c.scratch, 'p.yml')
    with open(path, 'w') as fh:
        yaml.safe_dump(spec, fh, sort_keys=False)
    return lambda: ParameterSet(param_filepath=path)


def valid(c):
    rng = c.rng
    d = pdesc.random(rng)
    how = pdesc.pick(rng, ['dict', 'dict', 'yaml'])
    describe(c, d, how=how)
    verify(c, source(c, d, rng, how)(), d, 'set')
    c.count('sets')


def invalid(c):
    rng = c.rng
    d0 = pdesc.random(rng)
    name, d = pdesc.mutate(rng, d0, python=True)
    how = pdesc.pick(rng, ['dict', 'dict', 'yaml'])
    describe(c, d, broken=name, how=how)
    c.raises(source(c, d, rng, how), REJECT, 'accepted:' + name,
             'broken restriction ' + name)
    c.count('broken ' + name)


def sources(c):
    """Exactly one source; wrong types and missing sections are rejected."""
    from triumvirate.parameters import ParameterSet
    rng = c.rng
    d = pdesc.random(rng)
    spec = pdesc.to_dict(d, rng)
    what = pdesc.pick(rng, ['none', 'both', 'section', 'type', 'absent',
                            'key'])
    describe(c, d, what=what)
    if what == 'none':
        c.raises(lambda: ParameterSet(), REJECT, 'source', 'no source')
    elif what == 'both':
        path = os.path.join(c.scratch, 'p.yml')
        open(path, 'w').write('a: 1\n')
        c.raises(lambda: ParameterSet(param_filepath=path, param_dict=spec),
                 REJECT, 'source', 'two sources')
    elif what == 'section':
        k = pdesc.pick(rng, ['degrees', 'wa_orders', 'range', 'num_bins'])
        del spec[k]
        c.raises(lambda: ParameterSet(param_dict=spec), REJECT, 'section',
                 'without ' + k)
    elif what == 'type':
        k, v = pdesc.pick(rng, [('num_bins', 'many'), ('idx_bin', 'first'),
                                ('expand', 'wide'), ('range', ['a', 'b']),
                                ('assignment', 3), ('verbose', 'loud')])
        spec[k] = v
        c.raises(lambda: ParameterSet(param_dict=spec), REJECT, 'type',
                 '%s: %r' % (k, v))
    elif what == 'absent':
        c.raises(lambda: ParameterSet(
            param_filepath=os.path.join(c.scratch, 'absent.yml')),
            (OSError,), 'absent', 'absent file')
    else:
        ps = ParameterSet(param_dict=spec)
        c.raises(lambda: ps['nonexistent'], REJECT, 'key', 'unknown name')
        c.raises(lambda: ps.nonexistent, (AttributeError,), 'key',
                 'unknown attribute')
        c.check(ps.get('nonexistent') is None
                and ps.get('nonexistent', 4) == 4, 'key', 'get default')
    c.count('sources')


CHANGES = ('expand', 'alignment', 'padscale', 'padfactor', 'assignment',
           'interlace', 'degrees', 'wa_orders', 'form', 'norm_convention',
           'binning', 'range', 'num_bins', 'idx_bin', 'fftw_scheme',
           'use_fftw_wisdom', 'progbar', 'boxsize', 'ngrid',
           'catalogue_type', 'statistic_type', 'cutoff_nyq')
NEST = dict(boxsize='xyz', ngrid='xyz', degrees=('ell1', 'ell2', 'ELL'),
            wa_orders='ij')


def as_value(k, v, rng):
    if k in NEST:
        return dict(zip(NEST[k], v if v is not None else [None]*3))
    return pdesc.recase(rng, v) if k in pdesc.CASED else v


def change(c):
    """Sequences of changes follow the description."""
    from triumvirate.parameters import ParameterSet
    rng = c.rng
    d = pdesc.random(rng)
    for k in ('boxsize', 'ngrid'):    # given ones, so that both can change
        while d[k] is None:
            d = pdesc.random(rng)
    while d['boxsize'] is None or d['ngrid'] is None:
        d = pdesc.random(rng)
    describe(c, d)
    src = pdesc.to_dict(d, rng)
    import copy
    keep = copy.deepcopy(src)
    ps = ParameterSet(param_dict=src)
    c.check(src == keep, 'alias', 'the dictionary given was changed')
    for step in range(6):
        new = dict(d)
        other = pdesc.random(rng)
        while other['boxsize'] is None or other['ngrid'] is None:
            other = pdesc.random(rng)
        ks = [k for k in CHANGES if k != 'cutoff_nyq']
        ks = [ks[i] for i in rng.choice(len(ks), int(rng.integers(1, 4)),
                                        replace=False)]
        groups = [{'statistic_type', 'catalogue_type', 'norm_convention'},
                  {'alignment', 'padscale', 'padfactor', 'ngrid'},
                  {'form', 'num_bins', 'idx_bin', 'binning', 'range'},
                  {'fftw_scheme', 'use_fftw_wisdom'}]
        for g in groups:    # restrictions between values: change together
            if g & set(ks):
                ks = list(dict.fromkeys(ks + sorted(g)))
        # an interlacing choice dropped for three-point statistics is lost
        if pdesc.npoint(d['statistic_type']) == '3pt':
            d['interlace'] = new['interlace'] = False
        for k in ks:
            new[k] = other[k]
        if step and rng.random() < .25:   # an invalid change
            name, broken = pdesc.mutate(rng, dict(new), python=True)
            vals = {k: as_value(k, broken[k], rng) for k in CHANGES
                    if broken[k] is not d[k]}
            before = ps
            c.raises(lambda: ps.update(vals), REJECT,
                     'accepted change:' + name, 'broken ' + name)
            # the set is either unchanged, or cannot be used
            noticed = False
            try:
                ps._parse_params()
            except Exception:
                noticed = True
            if not noticed:
                verify(c, before, d, 'rejected')
            vals = {k: as_value(k, new[k], rng) for k in CHANGES}
            ps.update(**vals)
            c.count('rejected changes')
        elif len(ks) == 1:
            k = ks[0]
            if rng.random() < .5:
                ps[k] = as_value(k, new[k], rng)
            else:
                setattr(ps, k, as_value(k, new[k], rng))
        else:
            vals = {k: as_value(k, new[k], rng) for k in ks}
            if rng.random() < .5:
                ps.update(vals)
            else:
                ps.update(**vals)
        d = new
        verify(c, ps, d, 'change')
        c.count('changes')


def noticed(c):
    """A rejected change makes a later measurement fail, or has no effect."""
    import numpy as np
    from verifkit import trv
    from triumvirate import twopt
    rng = c.rng
    d = dict(pdesc.random(rng), statistic_type='powspec',
             catalogue_type='sim', norm_convention='particle',
             boxsize=[100.]*3, ngrid=[6]*3, form='diag', idx_bin=0,
             binning='lin', range=[.05, .3], num_bins=2, fftw_scheme='estimate',
             use_fftw_wisdom=False, alignment='centre', padfactor=None,
             cutoff_nyq=None, progbar=False, expand=1.)
    d['degrees'] = [0, 0, int(rng.integers(0, 3))]
    name, b = pdesc.mutate(rng, dict(d), python=True)
    describe(c, b, broken=name)
    from triumvirate.parameters import ParameterSet
    spec = pdesc.to_dict(d)
    ps = ParameterSet(param_dict=spec)
    pos = rng.random((40, 3))*99.
    cat = dict(x=pos[:, 0], y=pos[:, 1], z=pos[:, 2], nz=np.full(40, 4e-5),
               ws=np.ones(40), wc=np.ones(40))
    want = twopt.compute_powspec_in_gpp_box(trv.make(cat), paramset=ps)
    vals = {k: as_value(k, b[k], rng) for k in CHANGES if b[k] is not d[k]}
    k0 = sorted(vals)
    c.raises(lambda: ps.update(vals), REJECT, 'accepted change:' + name,
             'broken ' + name)
    try:
        got = twopt.compute_powspec_in_gpp_box(trv.make(cat), paramset=ps)
    except Exception:
        c.count('later measurements refused')
        return
    # the measurement may override the statistic and catalogue type only
    if set(k0) <= {'catalogue_type', 'statistic_type'}:
        return
    for k in want:
        c.close(got[k], want[k], 'unnoticed', tol=1e-9, atol=1e-9,
                msg='measurement after rejected ' + name)
    c.count('later measurements unaffected')


def run_ini(c, text, out=False):
    path = os.path.join(c.scratch, 'in.ini')
    with open(path, 'w') as fh:
        fh.write(text)
    cmd = [os.environ['VERIF_PARAMS_EXE'], path]
    if out:
        cmd.append(os.path.join(c.scratch, 'out.ini'))
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=60,
                       cwd=c.scratch, env=dict(os.environ, **pdesc.ENV))
    dumps = [dict(ln.split('\t', 1) for ln in blk.splitlines() if '\t' in ln)
             for blk in p.stdout.split('---\n')[1:]]
    return p, dumps


def verify_program(c, got, d, tag):
    want = pdesc.derived(d)

    def eq(k, v):
        g = got.get(k)
        if isinstance(v, float):
            ok = g is not None and (float(g) == v)
        else:
            ok = g == str(v)
        c.check(ok, tag + ':value', '%s is %s instead of %r' % (k, g, v))
    for k in ('alignment', 'padscale', 'assignment', 'catalogue_type',
              'statistic_type', 'form', 'norm_convention', 'binning',
              'num_bins', 'fftw_scheme', 'verbose'):
        eq(k, d[k])
    eq('expand', float(d['expand']))
    if d['cutoff_nyq'] is not None:
        eq('cutoff_nyq', float(d['cutoff_nyq']))
    eq('padfactor', float(d['padfactor'] or 0.))
    eq('idx_bin', d['idx_bin'] or 0)
    eq('bin_min', float(d['range'][0]))
    eq('bin_max', float(d['range'][1]))
    for k, v in zip(('ell1', 'ell2', 'ELL'), d['degrees']):
        eq(k, v)
    for k, v in zip(('i_wa', 'j_wa'), d['wa_orders']):
        eq(k, v)
    for k, v in zip('xyz', d['boxsize'] or [0.]*3):
        eq('boxsize_' + k, float(v))
    for k in ('npoint', 'space', 'assignment_order', 'fftw_planner_flag'):
        eq(k, want[k])
    eq('interlace', 'true' if want['interlace'] else 'false')
    eq('use_fftw_wisdom', want['use_fftw_wisdom'] or '')
    n = [int(got['ngrid_' + a]) for a in 'xyz']
    if want['ngrid'] is None:
        c.check(n == [0, 0, 0] and got['nmesh'] == '0', tag + ':derived',
                'mesh %s' % n)
    else:
        c.check(all(a in b for a, b in zip(n, want['ngrid'])),
                tag + ':derived', 'mesh %s instead of %s'
                % (n, want['ngrid']))
        c.check(int(got['nmesh']) == math.prod(n), tag + ':derived', 'nmesh')
    p = d['progbar']
    if isinstance(p, bool):
        eq('progbar', str(p).lower())
    else:
        c.check(float(got['progbar']) == p, tag + ':value', 'progbar')
    cat, out, files = pdesc.full_paths(d)
    eq('catalogue_dir', cat)
    eq('measurement_dir', out)
    eq('output_tag', d['tag'])
    eq('catalogue_columns', ','.join(d['columns']))
    if d['catalogue_type'] in ('survey', 'sim'):
        eq('data_catalogue_file', files[0])
    if d['catalogue_type'] in ('survey', 'random'):
        eq('rand_catalogue_file', files[1])


def program(c):
    rng = c.rng
    d = pdesc.random(rng, mesh_only=True)
    describe(c, d)
    p, dumps = run_ini(c, pdesc.to_ini(d, rng))
    if not c.check(p.returncode == 0 and len(dumps) == 2,
                   'program:rejected', 'valid file: exit %d %s'
                   % (p.returncode, (p.stdout + p.stderr)[-300:])):
        return
    verify_program(c, dumps[0], d, 'program')
    c.check(dumps[0] == dumps[1], 'program:copy', 'copy differs: %s' % [
        k for k in dumps[0] if dumps[0][k] != dumps[1].get(k)])
    c.count('program files')


def program_invalid(c):
    rng = c.rng
    name, d = pdesc.mutate(rng, pdesc.random(rng, mesh_only=True),
                           python=False)
    describe(c, d, broken=name)
    p, _ = run_ini(c, pdesc.to_ini(d, rng))
    c.check(p.returncode == 3, 'program accepted:' + name,
            'exit %d for broken %s: %s' % (p.returncode, name,
                                           p.stdout[-200:]))
    c.count('broken files ' + name)


def program_malformed(c):
    """Numbers that are not numbers are rejected."""
    rng = c.rng
    d = pdesc.random(rng)
    key = pdesc.pick(rng, ['boxsize_x', 'ngrid_y', 'expand', 'num_bins',
                           'bin_min', 'bin_max', 'ell1', 'ELL', 'idx_bin',
                           'padfactor', 'i_wa', 'verbose'])
    val = pdesc.pick(rng, ['abc', '1.2.3', '3x', '--5', '1e', 'ten'])
    describe(c, d, malformed=[key, val])
    text = pdesc.to_ini(d, None)
    lines = [ln for ln in text.splitlines()
             if not ln.startswith(key + ' ')]
    p, _ = run_ini(c, '\n'.join(lines + ['%s = %s' % (key, val)]) + '\n')
    c.check(p.returncode == 3, 'program malformed:' + key,
            'exit %d for %s = %s' % (p.returncode, key, val))
    c.count('malformed files')


GROUPS = [
    Group('valid', valid, 1500, 20000),
    Group('invalid', invalid, 2000, 25000),
    Group('sources', sources, 200, 1000),
    Group('change', change, 500, 6000),
    Group('noticed', noticed, 150, 1500),
    Group('program', program, 700, 8000),
    Group('program_invalid', program_invalid, 700, 8000),
    Group('program_malformed', program_malformed, 150, 1500),
]

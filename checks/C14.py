"""Parameter files read back as the same parameters."""
import os
import tempfile

from verifkit.worker import Group
from verifkit import pdesc
from checks.C13 import run_ini, describe, verify, verify_program

RULE = ('Random valid parameter descriptions with awkward numbers, paths, '
        'environment variables and lists of files; saved and loaded '
        'repeatedly as YAML by the package, printed and read repeatedly by '
        'the program; distinct by description.')
ASSUMPTIONS = ['paths hold no white space (the program reads words)']
CASE_TIMEOUT = 120


def prepare(build):
    return {'VERIF_PARAMS_EXE': build.harness('params')}


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def yaml_(c):
    """Save, load, save, load ..."""
    import numpy as np
    from triumvirate.parameters import ParameterSet
    rng = c.rng
    d = pdesc.random(rng)
    how = pdesc.pick(rng, ['plain', 'numpy', 'changed', 'tuple'])
    describe(c, d, how=how)
    spec = pdesc.to_dict(d, rng)
    if how == 'numpy':
        for k in ('boxsize', 'ngrid'):
            spec[k] = {a: None if v is None else
                       (np.float64(v) if k == 'boxsize' else np.int64(v))
                       for a, v in spec[k].items()}
        spec['range'] = np.array(spec['range'])
        spec['num_bins'] = np.int32(spec['num_bins'])
    if how == 'tuple':
        spec['range'] = tuple(spec['range'])
    ps = ParameterSet(param_dict=spec)
    if how == 'changed':
        ps['range'] = [d['range'][0], d['range'][1] + 1.]
        ps['tags'] = dict(output='_new')
        d = dict(d, range=[d['range'][0], d['range'][1] + 1.])
    path = os.path.join(c.scratch, 'Saved-1.yml')
    ps.save(path)
    back = ParameterSet(param_filepath=path)
    for k in ps.names():
        same = plain(back.get(k)) == (
            plain(ps[k].tolist()) if hasattr(ps[k], 'tolist')
            else plain(ps[k]))
        c.check(same, 'yaml', '%s read back as %r, saved %r'
                % (k, back.get(k), ps[k]))
    c.check(set(back.names()) == set(ps.names()), 'yaml names',
            set(back.names()) ^ set(ps.names()))
    verify(c, back, dict(d, ngrid=[ps['ngrid'][a] for a in 'xyz'])
           if d['ngrid'] is None and d['boxsize'] is not None else d,
           'yaml read')
    path2 = os.path.join(c.scratch, 'saved2.yml')
    back.save(path2)
    c.check(open(path).read() == open(path2).read(), 'yaml again',
            'saved again differently')
    again = ParameterSet(param_filepath=path2)
    c.check(dict(again.items()) == dict(back.items()), 'yaml again',
            'read again differently')
    c.count('YAML files')


def yaml_default(c):
    """The default path is in the measurement directory, by tag."""
    from triumvirate.parameters import ParameterSet
    rng = c.rng
    d = pdesc.random(rng)
    describe(c, d)
    d['dirs'] = [d['dirs'][0], os.path.join(tempfile.mkdtemp(dir=c.scratch), 'Out')]
    os.mkdir(d['dirs'][1])
    ps = ParameterSet(param_dict=pdesc.to_dict(d))
    ps.save()
    path = os.path.join(d['dirs'][1], 'parameters_used%s.yml' % d['tag'])
    if c.check(os.path.exists(path), 'default path',
               os.listdir(d['dirs'][1])):
        back = ParameterSet(param_filepath=path)
        c.check(dict(back.items()) == dict(ps.items()), 'default file',
                'differs')
    c.count('YAML files')


def program(c):
    """Print, read, print, read ..."""
    rng = c.rng
    d = pdesc.random(rng, mesh_only=True)
    saved = pdesc.pick(rng, [False, False, True, 'vec', 'v/B.txt', '/abs/v'])
    d['save_binned_vectors'] = saved
    describe(c, d)
    p, dumps = run_ini(c, pdesc.to_ini(d, rng), out=True)
    if not c.check(p.returncode == 0 and len(dumps) == 2, 'rejected',
                   'valid file: exit %d %s' % (p.returncode, p.stdout[:300])):
        return
    verify_program(c, dumps[0], d, 'read')
    out = pdesc.full_paths(d)[1]
    want = '' if saved is False else \
        out + 'binned_vectors' + d['tag'] if saved is True else \
        saved if saved.startswith('/') else out + saved
    if d['statistic_type'] in ('modes', 'pairs') and not want:
        want = out + 'binned_vectors' + d['tag']
    c.check(dumps[0]['save_binned_vectors'] == want, 'read:vectors',
            '%s instead of %s' % (dumps[0]['save_binned_vectors'], want))
    first = open(os.path.join(c.scratch, 'out.ini')).read()
    p, again = run_ini(c, first, out=True)
    if not c.check(p.returncode == 0 and len(again) == 2, 'printed rejected',
                   'printed file: exit %d %s' % (p.returncode,
                                                 p.stdout[:300])):
        return
    diff = {k: (v, again[0].get(k)) for k, v in dumps[0].items()
            if again[0].get(k) != v}
    c.check(not diff, 'printed', 'read back differently: %s' % diff)
    second = open(os.path.join(c.scratch, 'out.ini')).read()
    c.check(first == second, 'printed again', 'printed again differently')
    c.count('program files')


def templates(c):
    """The shipped template is read as the dictionary it is fetched as."""
    import yaml
    from triumvirate.parameters import (ParameterSet,
                                        fetch_paramset_template)
    rng = c.rng
    text = fetch_paramset_template('text')
    d1 = fetch_paramset_template('dict')
    c.params(idx=c.idx)
    c.check(yaml.safe_load(text) == d1, 'template', 'text and dict differ')
    d2, defaults = fetch_paramset_template('dict', ret_defaults=True)
    c.check(d2 == d1, 'template', 'with defaults')
    for k, v in defaults.items():
        c.check(d1[k] == v, 'template', 'default of ' + k)
    d1.update(catalogue_type='survey', statistic_type='powspec',
              boxsize=dict(x=1., y=2., z=3.), ngrid=dict(x=4, y=4, z=4),
              range=[.1, .2], num_bins=3, verbose=60)
    ps = ParameterSet(param_dict=d1)
    for k, v in pdesc.DEFAULTS.items():
        if k != 'verbose':
            c.check(ps.get(k) == v, 'template default',
                    '%s: %r instead of %r' % (k, ps.get(k), v))
    bad = pdesc.pick(rng, ['ini', 'json', ''])
    c.raises(lambda: fetch_paramset_template(bad), (ValueError,),
             'template format', bad)


GROUPS = [
    Group('yaml', yaml_, 700, 8000),
    Group('yaml_default', yaml_default, 150, 1000),
    Group('program', program, 700, 8000),
    Group('templates', templates, 5, 20),
]

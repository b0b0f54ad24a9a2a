"""Files which cannot be read or written in full."""
import ctypes
import os
import re
import resource
import shutil
import signal
import subprocess
import tempfile
import warnings

import numpy as np

from verifkit import prog, req
from verifkit.build import clean_env
from verifkit.worker import Group

RULE = ('Random measurements of the program and of the package, first '
        'without faults, then with a fault injected at a random place: a '
        'size limit or a full device while writing, targets which are '
        'directories or lie in missing ones, input files which are missing, '
        'directories, fail with an input/output error at a random offset '
        'of a random pass, or cannot be opened again; distinct by measurement, file, kind and place of '
        'the fault.')
ASSUMPTIONS = ['faults last until the end of the run']
MAIN = req.KINDS


def prepare(build):
    return {'VERIF_EXE': build.exe(), 'LD_PRELOAD': build.shim('iofault'),
            'OMP_NUM_THREADS': '1'}


def shim():
    lib = ctypes.CDLL(os.environ['LD_PRELOAD'])
    lib.iofault_set.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_int]
    return lib


# -- program -----------------------------------------------------------------
def launch(d, limit=None, **env):
    def pre():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    p = subprocess.run(
        [os.environ['VERIF_EXE'], 'p.ini'], cwd=d, stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT, timeout=100, preexec_fn=pre,
        env=clean_env(OMP_NUM_THREADS=1, **env))
    return prog.Result(p, d)


def contents(d, sub='out'):
    r = prog.Result.__new__(prog.Result)
    r.dir = d
    out = {}
    for f in r.files(sub):
        with open(os.path.join(d, sub, f), 'rb') as fh:
            out[f] = fh.read()
    return out


def renew(d):
    out = os.path.join(d, 'out')
    if os.path.isdir(out):
        shutil.rmtree(out)
    elif os.path.lexists(out):
        os.unlink(out)
    os.makedirs(out)


def setup(c, kind):
    rng = c.rng
    r = req.Req(c, kind, lo=4, hi=6)
    d = tempfile.mkdtemp(dir=c.scratch)
    names = ['x', 'y', 'z', 'nz', 'ws', 'wc']
    files = []
    for i, q in enumerate(r.cols):
        parts = 2 if rng.random() < .3 else 1
        cut = [0, len(q['x'])] if parts == 1 else [
            0, int(rng.integers(1, len(q['x']))), len(q['x'])]
        one = []
        for j in range(parts):
            f = 'c%d%d.txt' % (i, j)
            prog.write_catalogue(os.path.join(d, f), {
                k: np.asarray(v)[cut[j]:cut[j+1]] for k, v in q.items()},
                names)
            one.append(f)
        files.append(one)
    p = prog.settings(r, '::'.join(files[0]) if r.cat != 'random' else None,
                      '::'.join(files[-1]) if r.cat != 'sim' else None,
                      ','.join(names))
    if rng.random() < .4:
        p['save_binned_vectors'] = 'true'
    if rng.random() < .5:
        p['output_tag'] = '_t'
    p['verbose'] = int(rng.choice([0, 20, 60]))
    prog.write_ini(os.path.join(d, 'p.ini'), p, rng)
    renew(d)
    res = launch(d)
    if not c.check(res.code == 0, 'run', 'the program ended with %d'
                   % res.code, text=res.text[-2000:]):
        return None
    ref = contents(d)
    renew(d)
    return r, d, sum(files, []), p, ref


def reported(c, res, what, key):
    """Ended with an error, in its own words."""
    c.check(res.code != 0, key + '/silent', '%s: ended with success' % what,
            text=res.text[-1000:])
    c.check(res.code not in (-11, -7, -8, -4, 139, 135, 136), key + '/crash',
            '%s: ended by signal (%d)' % (what, res.code),
            text=res.text[-1000:])
    c.check(any(w in res.text.lower() for w in ('fail', 'unwritable',
                                                'error', 'invalid')),
            key + '/message', '%s: no message' % what,
            text=res.text[-1000:])


def writes(c):
    rng = c.rng
    kind = MAIN[rng.integers(len(MAIN))]
    got = setup(c, kind)
    if got is None:
        return
    r, d, files, p, ref = got
    c.params(output=sorted(ref), vectors=p.get('save_binned_vectors'),
             **r.describe())
    key = 'write-%s' % ('2pt' if r.npt == 2 else '3pt')
    sizes = {f: len(b) for f, b in ref.items()}
    for how in rng.permutation(['limit', 'limit', 'limit', 'full', 'dir',
                                'file', 'open', 'none'])[:4]:
        renew(d)
        env = {}
        f = sorted(ref)[rng.integers(len(ref))]
        target = os.path.join(d, 'out', f)
        limit, wrong = None, True
        if how == 'limit':
            # Around the sizes of files and buffers, or anywhere.
            s = [sizes[f] - 1, sizes[f], sizes[f]//2, 4096,
                 max(sizes.values())][rng.integers(5)]
            limit = int(max(0, s)) if rng.random() < .7 else int(
                rng.integers(0, max(sizes.values()) + 2))
            wrong = limit < max(sizes.values())
        elif how == 'full':
            os.symlink('/dev/full', target)
        elif how == 'dir':
            os.makedirs(target)
        elif how == 'file':
            os.rmdir(os.path.join(d, 'out'))
            open(os.path.join(d, 'out'), 'w').close()
        elif how == 'open':
            mark = os.path.join(d, 'mark')
            env = dict(LD_PRELOAD=os.environ['LD_PRELOAD'],
                       IOFAULT_PATH='/' + f, IOFAULT_AFTER=1 << 40,
                       IOFAULT_PASS=99, IOFAULT_MARK=mark, IOFAULT_OPEN=1)
        else:
            wrong = False
        res = launch(d, limit, **env)
        if how == 'open' and not os.path.exists(mark):
            c.count('not reached')
            wrong = False
        c.count('faults' if wrong else 'no fault')
        what = 'writing %s with %s' % (
            f, how if limit is None else 'a limit of %d bytes' % limit)
        if wrong:
            reported(c, res, what, key)
            continue
        c.check(res.code == 0, key + '/alarm', '%s: ended with %d'
                % (what, res.code), text=res.text[-1000:])
        c.check(contents(d) == ref, key + '/contents',
                '%s: files are not those of the first run' % what)


def reads(c):
    rng = c.rng
    got = setup(c, MAIN[rng.integers(len(MAIN))])
    if got is None:
        return
    r, d, files, p, ref = got
    files = files + ['p.ini', 'p.ini']
    c.params(files=files, **r.describe())
    mark = os.path.join(d, 'mark')
    for how in rng.permutation(['eio', 'eio', 'eio', 'open', 'missing', 'dir',
                                'none'])[:5]:
        renew(d)
        f = files[rng.integers(len(files))]
        path = os.path.join(d, f)
        kind = 'parameters' if f == 'p.ini' else 'catalogue'
        env, wrong = {}, how != 'none'
        what = 'reading %s with %s' % (f, how)
        if how == 'eio':
            n = os.path.getsize(path)
            at = int(rng.choice([0, n - 1, rng.integers(0, n), n]))
            env = dict(LD_PRELOAD=os.environ['LD_PRELOAD'],
                       IOFAULT_PATH=f, IOFAULT_AFTER=at, IOFAULT_MARK=mark,
                       IOFAULT_PASS=1 if f == 'p.ini'
                       else int(rng.integers(1, 3)))
            what += ' at %d in pass %d' % (at, env['IOFAULT_PASS'])
        elif how == 'open':
            env = dict(LD_PRELOAD=os.environ['LD_PRELOAD'],
                       IOFAULT_PATH=f, IOFAULT_AFTER=1 << 40,
                       IOFAULT_PASS=99, IOFAULT_MARK=mark,
                       IOFAULT_OPEN=1 if f == 'p.ini'
                       else int(rng.integers(1, 3)))
            what += ' (opening %d)' % env['IOFAULT_OPEN']
        elif how != 'none':
            os.rename(path, path + '.away')
            if how == 'dir':
                os.mkdir(path)
        res = launch(d, **env)
        if how in ('eio', 'open'):
            if not os.path.exists(mark):
                wrong = False
                c.count('not reached')
            else:
                os.unlink(mark)
        elif how != 'none':
            if how == 'dir':
                os.rmdir(path)
            os.rename(path + '.away', path)
        c.count('faults' if wrong else 'no fault')
        key = 'read-' + kind
        if wrong:
            reported(c, res, what, key)
            new = contents(d) if os.path.isdir(os.path.join(d, 'out')) else {}
            c.check(not any(k in ref and not k.startswith('parameters_')
                            for k in new), key + '/measured',
                    '%s: measurements saved: %s' % (what, sorted(new)))
        else:
            c.check(res.code == 0 and contents(d) == ref, key + '/alarm',
                    '%s: ended with %d, or files differ' % (what, res.code),
                    text=res.text[-1000:])


# -- package -----------------------------------------------------------------
class Limit:
    def __init__(self, n):
        self.n = n

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        if self.n is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (self.n, self.old[1]))

    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)


def nameless(b):
    return re.sub(rb'extdata:\d+', b'', b)


def saves(c):
    rng = c.rng
    r = req.Req(c, MAIN[rng.integers(len(MAIN))], lo=4, hi=6)
    d = os.path.join(c.scratch, 'save')
    way = ['.txt', '.npz', 'parameters'][rng.integers(3)]
    c.params(way=way, **r.describe())
    if way == 'parameters':
        ps = r.paramset(directories=dict(catalogues=None, measurements=d))
        call = lambda: ps.save(os.path.join(d, 'used.yml'))  # noqa: E731
    else:
        ps = r.paramset(directories=dict(catalogues=None, measurements=d))
        call = lambda: r.run(paramset=ps, save=way)     # noqa: E731

    def fresh():
        if os.path.lexists(d):
            shutil.rmtree(d) if os.path.isdir(d) else os.unlink(d)
        os.makedirs(d)

    fresh()
    call()
    (f, body), = contents(c.scratch, 'save').items()
    target = os.path.join(d, f)
    key = 'save' + ('' if way[0] == '.' else '-') + way
    for how in rng.permutation(['limit', 'limit', 'full', 'dir', 'missing',
                                'none'])[:4]:
        fresh()
        limit, wrong = None, True
        if how == 'limit':
            n = len(body)
            limit = int(rng.choice([0, n - 16, n//2, n + 16, n + 5000,
                                    rng.integers(0, n)]))
            wrong = limit < n
            if n - 16 < limit < n + (5000 if way == '.npz' else 16):
                continue        # sizes may vary
        elif how == 'full':
            os.symlink('/dev/full', target)
        elif how == 'dir':
            os.makedirs(target)
        elif how == 'missing':
            if way[0] == '.':
                continue        # directories are made
            os.rmdir(d)
        else:
            wrong = False
        what = 'saving %s with %s' % (
            f, how if limit is None else 'a limit of %d bytes' % limit)
        err = None
        with Limit(limit), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                call()
            except Exception as e:  # any error is a report
                err = e
        c.count('faults' if wrong else 'no fault')
        if wrong:
            c.check(err is not None, key + '/silent',
                    '%s: no error' % what)
            continue
        c.check(err is None, key + '/alarm', '%s: %r' % (what, err))
        now = contents(c.scratch, 'save')
        c.check(list(now) == [f] and (way == '.npz' or nameless(now[f])
                                      == nameless(body)),
            key + '/contents', '%s: file is not that of the first call'
            % what, was=body.decode(errors='replace')[:3000],
            now=now.get(f, b'').decode(errors='replace')[:3000])


def loads(c):
    from triumvirate.catalogue import ParticleCatalogue
    from triumvirate.parameters import ParameterSet
    rng = c.rng
    lib = shim()
    n = int(rng.integers(2, 3000))
    cols = {k: rng.uniform(1, 9, n) for k in ('x', 'y', 'z', 'nz', 'ws',
                                              'wc')}
    names = list(cols)
    what = ['catalogue', 'catalogue', 'parameters'][rng.integers(3)]
    if what == 'catalogue':
        path = os.path.join(c.scratch, 'cat_in.txt')
        prog.write_catalogue(path, cols, names)

        def call():
            cat = ParticleCatalogue.read_from_file(path, names=names)
            return len(cat), float(cat.wtotal)
    else:
        r = req.Req(c, MAIN[rng.integers(len(MAIN))])
        path = os.path.join(c.scratch, 'par_in.yml')
        r.paramset().save(path)

        def call():
            return dict(ParameterSet(param_filepath=path).items())
    c.params(what=what, rows=n, first=cols['x'][0])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        want = call()
        size = os.path.getsize(path)
        for _ in range(3):
            at = int(rng.choice([0, size - 1, rng.integers(0, size),
                                 rng.integers(0, size)]))
            k = int(rng.integers(1, 3))
            lib.iofault_set(os.path.basename(path).encode(), at, k)
            err, got = None, None
            try:
                got = call()
            except Exception as e:  # any error is a report
                err = e
            fired = lib.iofault_fired()
            lib.iofault_set(b'', 0, 1)
            c.count('faults' if fired else 'not reached')
            c.check(err is not None or got == want, 'load-' + what,
                    'reading with an error at %d (pass %d, fired %d) gives '
                    '%s instead of %s' % (at, k, fired, str(got)[:200],
                                          str(want)[:200]))
            if not fired:
                c.check(err is None, 'load-%s/alarm' % what,
                        'without a fault: %r' % err)
        c.check(call() == want, 'load-' + what, 'differs after the faults')


GROUPS = [Group('writes', writes, 120, 1200), Group('reads', reads, 120, 1200),
          Group('saves', saves, 120, 1200), Group('loads', loads, 80, 800)]

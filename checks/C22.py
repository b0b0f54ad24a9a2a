"""Memory given back: leak sanitiser and allocator counts."""
import ctypes
import gc
import glob
import os
import re
import shutil
import subprocess
import tempfile

import numpy as np

from checks import C01
from verifkit import build as B
from verifkit import muted, prog, req
from verifkit.worker import Group

RULE = ('Measurements of every kind, transforms, parameter, binning and '
        'catalogue operations, accepted and rejected, run in the package '
        'built with the leak sanitiser, which looks for unreachable memory '
        'after each case, and in repeated identical rounds over which the '
        'bytes in use may not grow; the program is run under the leak '
        'sanitiser on files it accepts and rejects, and may not report '
        'memory it did not clear; distinct by all of their parameters.')
ASSUMPTIONS = ['unreachable memory is only judged if it was allocated in the '
               'code of the package',
               'bytes in use are counted while the process has one task; '
               'one-off caches of the first rounds are not growth']
BUDGET = {'quick': 240, 'thorough': 780}
WORKERS = 6
CASE_TIMEOUT = 240


def prepare(build):
    env = B.san_env(
        leaks=True,
        PYTHONPATH=build.pyext(san=True) + ':' + B.VERIF,
        VERIF_EXE=build.exe(san=True),
        VERIF_CAT=build.harness('cat', san=True),
        VERIF_MON=build.harness('monitor', san=True),
        VERIF_PARAMS_EXE=build.harness('params', san=True),
        TRV_SBT=build.harness('sbt', san=True),
        TRV_MESH=build.harness('mesh', san=True),
        TRV_MESH_SAN=build.harness('mesh', san=True))
    env['ASAN_OPTIONS'] += ':log_path=lsan'     # in the worker's directory
    env['_full'] = True
    return env


_lib = ctypes.CDLL(None)
_seen = set()


def leaks():
    """New unreachable blocks, allocated in the package: (stack, text)."""
    gc.collect()
    for f in glob.glob('lsan.%d*' % os.getpid()):
        open(f, 'w').close()
    _lib.__lsan_do_recoverable_leak_check()
    out = []
    for f in glob.glob('lsan.%d*' % os.getpid()):
        text = open(f, errors='replace').read()
        for blk in re.split(r'\n\s*\n', text):
            if not re.search(r'(Direct|Indirect) leak of', blk):
                continue
            fr = [ln for ln in blk.splitlines() if re.match(r'\s+#\d', ln)]
            own = [k for k in fr if '/triumvirate/' in k or 'trv::' in k]
            # Allocated by the interpreter on our behalf: not our blocks.
            near = fr[:4]
            if not own or not any(k in own for k in near):
                continue
            sig = tuple(k.split(' in ')[-1] for k in fr[:8]), re.search(
                r'leak of \d+ byte\(s\) in \d+ object', blk).group(0)
            if sig not in _seen:
                _seen.add(sig)
                out.append((own[0].strip(), blk))
    return out


class Children:
    """Sees what sanitised children report."""

    def __init__(self, c):
        self.c, self.dir = c, tempfile.mkdtemp(dir=c.scratch)

    def __enter__(self):
        self.real = subprocess.Popen
        watch = self

        class Popen(self.real):
            def __init__(p, args, *a, **kw):
                env = dict(kw.get('env') or os.environ)
                env.pop('LD_PRELOAD', None)
                for k, v in B.SAN_OPTIONS.items():
                    env[k] = v + ':log_path=' + os.path.join(
                        watch.dir, 'report')
                env['ASAN_OPTIONS'] += ':detect_leaks=1'
                kw['env'] = env
                watch.c.count('processes watched')
                super(Popen, p).__init__(args, *a, **kw)

        subprocess.Popen = Popen
        return self

    def __exit__(self, *exc):
        subprocess.Popen = self.real
        for f in sorted(glob.glob(os.path.join(self.dir, '*'))):
            text = open(f, errors='replace').read()
            if 'LeakSanitizer' in text:
                at = re.search(r'#\d+ \S+ in (trv::\S*|main\b.*)', text)
                self.c.fail('child:' + self.c.group, 'leak reported: %s'
                            % (at.group(0) if at else '?')[:200],
                            text=text[:6000])
        shutil.rmtree(self.dir, ignore_errors=True)


def judge(c):
    found = leaks()
    c.check(not found, 'leak:' + c.group, 'unreachable memory, allocated at '
            + '; '.join(s for s, b in found)[:300],
            blocks=[b for s, b in found][:3])


def leaking(func):
    def case(c):
        with Children(c):
            func(c)
        judge(c)
    return case


def reuse(prop, group):
    def case(c):
        with Children(c):
            muted.run(c, prop, group)
        judge(c)
    return case


# -- repeated rounds ------------------------------------------------------
def in_use():
    gc.collect()
    f = _lib.__sanitizer_get_current_allocated_bytes
    f.restype = ctypes.c_size_t
    return f()


def steady(c, once, what, warm=3, rounds=6):
    """Bytes in use after each of several identical rounds."""
    for i in range(warm):
        once()
    use = np.zeros(rounds + 1)
    use[0] = in_use()
    for i in range(rounds):
        once()
        use[i + 1] = in_use()
    d = np.diff(use)
    c.count('rounds measured', rounds)
    # Growth that goes on: in most of the rounds, the last ones among them.
    grown = (d > 0).sum()
    c.check(not (grown >= rounds - 1 and use[-1] - use[0] >= 16*rounds),
            'growth:' + c.group, '%s: %d bytes more in use after %d rounds'
            % (what, use[-1] - use[0], rounds), growth=d)


def rounds_measure(c):
    rng = c.rng
    r = req.Req(c, req.KINDS[c.idx % len(req.KINDS)])
    share = bool(rng.random() < .4)
    c.params(case='rounds', shared=share, **r.describe())
    ps, cats = (r.paramset(), r.cats()) if share else (None, None)
    steady(c, lambda: r.run(cats=cats, paramset=ps), r.stat)


def rounds_rejected(c):
    """Calls that fail at some stage, again and again."""
    from triumvirate.dataobjs import Binning
    from triumvirate._particles import _ParticleCatalogue
    rng = c.rng
    r = req.Req(c, req.KINDS[c.idx % len(req.KINDS)], hi=7)
    how = ['los-shape', 'los-length', 'space', 'columns', 'wa', 'box',
           'algo', 'algo'][rng.integers(8)]
    c.params(case='rejected', how=how, **r.describe())
    if how in ('los-shape', 'los-length', 'algo') and r.cat == 'sim':
        how = 'space'
    los = [rng.normal(0, 1, (len(q['x']), 3)) for q in r.cols]
    bad = los[-1][:, :2] if how != 'los-length' else los[-1][:-1]
    if rng.random() < .5:
        los = [bad] + los[1:]
    else:
        los[-1] = bad
    other = Binning('config' if r.fourier else 'fourier', 'lin',
                    r.edges[0], r.edges[-1], 2)
    import triumvirate._threept as T3
    import triumvirate._twopt as T2
    T = T2 if r.npt == 2 else T3
    name = {'powspec': 'powspec', '2pcf': 'corrfunc', '2pcf-win':
            'corrfunc_window', 'bispec': 'bispec', '3pcf': '3pcf',
            '3pcf-win': '3pcf_window'}[r.stat]
    cats = [np.array(q[k], float) for q in r.cols for k in 'xyz']
    refused = [0]

    def algo():
        cs = []
        for q in r.cols:
            v = [np.ascontiguousarray(q[k], float) for k in 'xyz']
            one = np.ones(len(v[0]))
            cs.append(_ParticleCatalogue(*v, one, one, one))
        f = getattr(T, '_compute_' + name)
        bad = [np.ascontiguousarray(k) for k in los]
        args = cs + bad + [r.paramset(), r.binning()]
        args += [1.] if r.cat == 'survey' else [1., 1.]
        if r.stat == '3pcf-win':
            args.append(False)
        f(*args)

    def once():
        try:
            if how == 'algo':
                algo()
            elif how.startswith('los'):
                r.run(los=los)
            elif how == 'space':
                r.run(binning=other)
            elif how == 'columns':
                q = dict(r.cols[0])
                q['y'] = q['y'][:-1]
                r.run(cats=r.cats([q] + r.cols[1:]))
            elif how == 'wa':
                r.run(paramset=r.paramset(num_bins=0))
            else:
                r.run(paramset=r.paramset(boxsize=dict(x=-1., y=1., z=1.)))
        except Exception:
            refused[0] += 1
    steady(c, once, 'rejected calls (%s)' % how)
    c.count('calls refused', refused[0])


def rounds_objects(c):
    """Parameter sets, binnings, catalogues, transforms, built and dropped,
    also when they fail to be built."""
    from triumvirate.dataobjs import Binning
    from triumvirate.parameters import ParameterSet
    from triumvirate._fftlog import HankelTransform
    from triumvirate.fieldmesh import record_binned_vectors
    rng = c.rng
    r = req.Req(c, hi=7)
    which = ['params', 'params-bad', 'update-bad', 'binning', 'binning-bad',
             'hankel', 'hankel-bad', 'cat', 'cat-bad', 'vectors', 'copy',
             'transform'][c.idx % 12]
    n = int(rng.integers(8, 200))
    x = np.exp(np.linspace(-2, 2, n))
    f = rng.normal(0, 1, n)
    ext = int(rng.integers(5)) if n % 2 == 0 else 0
    if ext == 4:
        f = np.abs(f)
    c.params(case='objects', which=which, n=n, ext=ext, **r.describe())
    ps = r.paramset()
    b = r.binning()
    h = HankelTransform(.5, 0., x, 1., extrap=ext)

    def quiet(func):
        try:
            func()
        except Exception:
            c.count('calls refused')

    bad = [dict(num_bins=-1), dict(assignment='x'), dict(binning=3),
           dict(ngrid=dict(x=-1, y=2, z=2)), dict(statistic_type='x'),
           dict(idx_bin=50), dict(range=[3., 1.]), dict(alignment=4)][
               rng.integers(8)]

    def once():
        for i in range(5):
            if which == 'params':
                r.paramset().update(verbose=60)
            elif which == 'params-bad':
                d = dict(r.paramset().items())
                d.update(bad)
                quiet(lambda: ParameterSet(param_dict=d))
            elif which == 'update-bad':
                quiet(lambda: r.paramset().update(bad))
            elif which == 'binning':
                v = Binning.from_parameter_set(ps)
                v.set_custom_bins(np.sort(rng.uniform(0, 1, 6)))
            elif which == 'binning-bad':
                quiet(lambda: Binning('x', 'lin', 0, 1, 3))
                quiet(lambda: Binning('config', 'linpad', 0, 1, 3))
                quiet(lambda: b.set_bins(3, 1, 2))
            elif which == 'hankel':
                HankelTransform(.5, 0., x, 1., extrap=ext).transform(f)
            elif which == 'hankel-bad':
                quiet(lambda: HankelTransform(.5, 0., x, 1., extrap=9))
                quiet(lambda: HankelTransform(0., 1., x, 1.))
                quiet(lambda: h.transform(f[:-1]))
            elif which == 'cat':
                r.cats()
            elif which == 'cat-bad':
                q = dict(r.cols[0])
                q['z'] = q['z'][:-1]
                quiet(lambda: r.cats([q]))
            elif which == 'vectors':
                quiet(lambda: record_binned_vectors(b, paramset=ps))
            elif which == 'copy':
                dict(ps.items())
                quiet(lambda: ps.save(os.path.join(c.scratch, 'p.yml')))
            else:
                h.transform(f)
    steady(c, once, which)


# -- the program ----------------------------------------------------------
def run_program(c, args=('p.ini',), d=None):
    p = subprocess.run([os.environ['VERIF_EXE'], *args], cwd=d,
                       env=B.clean_env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=200,
                       stdin=subprocess.DEVNULL)
    text = p.stdout.decode(errors='replace')
    c.count('program runs ending with %d' % p.returncode)
    c.check('Uncleared' not in text, 'uncleared', 'the program reports: '
            + ' '.join(ln for ln in text.splitlines() if 'Uncleared' in ln))
    return p.returncode, text


def program(c):
    d = tempfile.mkdtemp(dir=c.scratch)
    try:
        r, files, full = C01.prog_setup(c, d)
        extra = {'verbose': 20}
        if c.rng.random() < .4:
            extra['save_binned_vectors'] = 'vecs.txt'
        if c.rng.random() < .3:
            extra['fftw_scheme'] = 'measure'
        prog.write_ini(os.path.join(d, 'p.ini'), prog.settings(
            r, **files, **extra))
        c.params(case='program', **r.describe(), **extra)
        with Children(c):
            code, text = run_program(c, d=d)
        c.check(code == 0 and 'peak memory' in text or code == 99, 'end',
                'the program ended with %d' % code, text=text[-2000:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


REUSED = [('C03', 'random', 15), ('C11', 'recorded', 15),
          ('C11', 'unusable', 20), ('C13', 'program', 15),
          ('C13', 'program_invalid', 15), ('C13', 'invalid', 40),
          ('C13', 'change', 30), ('C15', 'arrays', 10), ('C15', 'cpp', 15),
          ('C15', 'cpp-reject', 15), ('C19', 'hankel', 15),
          ('C19', 'options', 5), ('C19', 'cpp', 15), ('C24', 'native', 10)]

# With the interpreter's own allocator, which draws on the system directly,
# its small objects are not among the bytes in use.
ROUNDS = {'PYTHONMALLOC': 'pymalloc', 'VERIF_ROUNDS': '1'}

GROUPS = [
    Group('measure', leaking(C01.measure), 40, 800),
    Group('lines', leaking(C01.lines), 40, 500),
    Group('positions', leaking(C01.positions), 30, 400),
    Group('columns', leaking(C01.columns), 30, 400),
    Group('bins', leaking(C01.bins), 40, 600),
    Group('meshes', leaking(C01.meshes), 30, 400),
    Group('vectors', leaking(C01.vectors), 15, 150),
    Group('samples', leaking(C01.samples), 50, 900),
    Group('settings', leaking(C01.settings), 40, 600),
    Group('rounds-measure', rounds_measure, 20, 300, env=ROUNDS),
    Group('rounds-rejected', rounds_rejected, 30, 300, env=ROUNDS),
    Group('rounds-objects', rounds_objects, 36, 480, env=ROUNDS),
    Group('program', program, 30, 300),
    Group('program_garbage', leaking(C01.program_garbage), 54, 540),
] + [Group('%s-%s' % (p, g), reuse(p, g), n, 10*n) for p, g, n in REUSED]
